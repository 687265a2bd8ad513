//! The simulated world around a real client: an in-memory transport whose every readiness decision
//! is the explorer's, a small reactive WebSocket server, an executor on the controlled scheduler,
//! and recording handlers.
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

use futures::future::FutureObj;
use futures::io::{AsyncRead, AsyncWrite};
use futures::task::{Spawn, SpawnError};
use mcrt::explore::{choose_cost, digest, log_line, Viol};
use mcrt::sched::{self, End, WorldCfg};
use sha1::{Digest, Sha1};
use socket_io_client::protocol::Args;
use socket_io_client::{AckBuilder, AckCallback, Client, EventCallback};

use crate::driver::viol;

/// A WebSocket message as seen by the server.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Msg {
    Text(String),
    Bin(Vec<u8>),
    Ping(Vec<u8>),
    Pong(Vec<u8>),
    Close(Option<u16>),
    /// Not a valid client frame.
    Bad(String),
}

impl Msg {
    pub fn show(&self) -> String {
        match self {
            Msg::Text(s) => s.clone(),
            Msg::Bin(b) => format!("bin{:?}", b),
            Msg::Ping(_) => "wsping".into(),
            Msg::Pong(_) => "wspong".into(),
            Msg::Close(_) => "wsclose".into(),
            Msg::Bad(s) => format!("BAD {}", s),
        }
    }
}

pub fn frame_raw(b0: u8, payload: &[u8]) -> Vec<u8> {
    let mut v = vec![b0];
    match payload.len() {
        n if n < 126 => v.push(n as u8),
        n if n < 65536 => {
            v.push(126);
            v.extend_from_slice(&(n as u16).to_be_bytes());
        }
        n => {
            v.push(127);
            v.extend_from_slice(&(n as u64).to_be_bytes());
        }
    }
    v.extend_from_slice(payload);
    v
}
pub fn frame(op: u8, payload: &[u8]) -> Vec<u8> {
    frame_raw(0x80 | op, payload)
}
pub fn text(s: &str) -> Vec<u8> {
    frame(1, s.as_bytes())
}
pub fn bin(b: &[u8]) -> Vec<u8> {
    frame(2, b)
}
/// An attachment: the engine message marker and the data.
pub fn att(b: &[u8]) -> Vec<u8> {
    let mut v = vec![4];
    v.extend_from_slice(b);
    frame(2, &v)
}
pub fn close_frame(code: Option<u16>) -> Vec<u8> {
    match code {
        Some(c) => frame(8, &c.to_be_bytes()),
        None => frame(8, &[]),
    }
}

pub const OPEN: &str = r#"0{"sid":"s","upgrades":[],"pingInterval":25000,"pingTimeout":5000}"#;

/// What the server does with the handshake request.
#[derive(Clone, Debug)]
pub enum Hs {
    /// Accept and send these bytes right behind the response.
    Accept(Vec<u8>),
    /// Answer with these bytes instead.
    Raw(Vec<u8>),
    /// Answer with a wrong accept key.
    WrongKey,
    /// Leave it to the script (`Net::accept`).
    Wait,
}

/// What the server does when it sees the client's close frame.
#[derive(Clone, Debug, PartialEq)]
pub enum OnClose {
    /// Send these bytes, then a close frame, then end the stream.
    Echo(Vec<u8>),
    /// Close frame, but the stream stays open.
    EchoOnly,
    /// End the stream without a close frame.
    Eof,
    Nothing,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Split {
    Full,
    /// One byte, half, all but one.
    Few,
    /// Every length.
    All,
}

pub struct Net {
    inbound: VecDeque<u8>,
    pub eof: bool,
    pub read_err: Option<io::ErrorKind>,
    pub write_err: Option<io::ErrorKind>,
    rwaker: Option<Waker>,
    wwaker: Option<Waker>,
    /// Bytes the client may still write before the transport blocks.
    pub credit: Option<usize>,
    pub raw: Vec<u8>,
    pos: usize,
    open: bool,
    pub request: String,
    pub got: Vec<Msg>,
    frag: Option<(u8, Vec<u8>)>,
    pub hs: Hs,
    pub on_close: OnClose,
    pub on_msg: Option<Box<dyn FnMut(&Msg) -> Vec<u8> + Send>>,
    pub dropped: bool,
    pub shut: bool,
    pub rsplit: Split,
    pub wsplit: Split,
    pub rpend: bool,
    pub wpend: bool,
    pub fpend: bool,
    /// `Some`: what has been written stays here until the transport is flushed, as in a `BufWriter`
    /// (once the handshake is over: tungstenite does not flush its request).
    pub held: Option<Vec<u8>>,
    sent_close: bool,
}

thread_local! {
    static BUFFERING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Everything inside runs on transports that pass on only what has been flushed.
pub fn buffering<R>(f: impl FnOnce() -> R) -> R {
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) {
            BUFFERING.with(|b| b.set(self.0))
        }
    }
    let _reset = Reset(BUFFERING.with(|b| b.replace(true)));
    f()
}

#[derive(Clone)]
pub struct NetH(pub Arc<Mutex<Net>>);

impl NetH {
    pub fn new() -> NetH {
        NetH(Arc::new(Mutex::new(Net {
            inbound: VecDeque::new(),
            eof: false,
            read_err: None,
            write_err: None,
            rwaker: None,
            wwaker: None,
            credit: None,
            raw: Vec::new(),
            pos: 0,
            open: false,
            request: String::new(),
            got: Vec::new(),
            frag: None,
            hs: Hs::Accept(text(OPEN)),
            on_close: OnClose::Echo(Vec::new()),
            on_msg: None,
            dropped: false,
            shut: false,
            rsplit: Split::Full,
            wsplit: Split::Full,
            rpend: false,
            wpend: false,
            fpend: false,
            held: BUFFERING.with(|b| b.get()).then(Vec::new),
            sent_close: false,
        })))
    }
    pub fn stream(&self) -> Stream {
        Stream(self.clone())
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut Net) -> R) -> R {
        let (r, a, b) = {
            let mut n = self.0.lock().unwrap();
            let r = f(&mut n);
            let readable = !n.inbound.is_empty() || n.eof || n.read_err.is_some();
            let a = if readable { n.rwaker.take() } else { None };
            let b = if n.credit != Some(0) || n.write_err.is_some() {
                n.wwaker.take()
            } else {
                None
            };
            (r, a, b)
        };
        if let Some(w) = a {
            w.wake()
        }
        if let Some(w) = b {
            w.wake()
        }
        r
    }
    /// Bytes from the server.
    pub fn push(&self, b: &[u8]) {
        self.with(|n| n.inbound.extend(b))
    }
    pub fn text(&self, s: &str) {
        log_line(|| format!("server sends {}", s));
        self.push(&text(s))
    }
    /// The server starts the closing handshake.
    pub fn server_close(&self, code: Option<u16>) {
        log_line(|| "server sends close".into());
        self.with(|n| {
            n.inbound.extend(close_frame(code));
            n.sent_close = true;
        })
    }
    pub fn eof(&self) {
        log_line(|| "server ends the stream".into());
        self.with(|n| n.eof = true)
    }
    pub fn credit(&self, c: Option<usize>) {
        self.with(|n| n.credit = c)
    }
    pub fn got(&self) -> Vec<Msg> {
        self.0.lock().unwrap().got.clone()
    }
    pub fn take(&self) -> Vec<Msg> {
        std::mem::take(&mut self.0.lock().unwrap().got)
    }
    /// Drop the record of what the server received so far.
    pub fn forget(&self) {
        let mut n = self.0.lock().unwrap();
        let pos = n.pos;
        n.raw.drain(..pos);
        n.pos = 0;
        n.got.clear();
    }
    pub fn pending_in(&self) -> usize {
        self.0.lock().unwrap().inbound.len()
    }
    pub fn dropped(&self) -> bool {
        self.0.lock().unwrap().dropped
    }
    /// Complete the handshake now (after `Hs::Wait`).
    pub fn accept(&self, extra: &[u8]) {
        log_line(|| "server accepts the handshake".into());
        self.with(|n| {
            let r = n.accept_response(false);
            n.inbound.extend(r);
            n.inbound.extend(extra);
            n.open = true;
        })
    }
    /// All transport deviations on.
    pub fn tweak_all(&self) {
        self.with(|n| {
            n.rsplit = Split::Few;
            n.wsplit = Split::Few;
            n.rpend = true;
            n.wpend = true;
            n.fpend = true;
        })
    }
}

impl Default for NetH {
    fn default() -> Self {
        NetH::new()
    }
}

impl Net {
    fn accept_response(&self, wrong: bool) -> Vec<u8> {
        let key = self
            .request
            .lines()
            .find_map(|l| {
                let (k, v) = l.split_once(':')?;
                if k.eq_ignore_ascii_case("sec-websocket-key") {
                    Some(v.trim().to_string())
                } else {
                    None
                }
            })
            .unwrap_or_default();
        let mut h = Sha1::new();
        h.update(key.as_bytes());
        h.update(b"258EAFA5-E914-47DA-95CA-C5AB0DC85B11");
        let mut d = h.finalize().to_vec();
        if wrong {
            d[0] ^= 1;
        }
        format!(
            "HTTP/1.1 101 Switching Protocols\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Accept: {}\r\n\r\n",
            base64::encode(&d)
        )
        .into_bytes()
    }

    /// The server looks at what the client has written.
    fn serve(&mut self) {
        if self.request.is_empty() {
            if let Some(p) = self.raw.windows(4).position(|w| w == b"\r\n\r\n") {
                self.request = String::from_utf8_lossy(&self.raw[..p + 4]).into_owned();
                self.pos = p + 4;
                match self.hs.clone() {
                    Hs::Accept(extra) => {
                        let r = self.accept_response(false);
                        self.inbound.extend(r);
                        self.inbound.extend(extra);
                        self.open = true;
                    }
                    Hs::WrongKey => {
                        let r = self.accept_response(true);
                        self.inbound.extend(r);
                    }
                    Hs::Raw(r) => self.inbound.extend(r),
                    Hs::Wait => (),
                }
            } else {
                return;
            }
        }
        while let Some((m, n)) = self.next_frame() {
            self.pos += n;
            if let Some(m) = m {
                log_line(|| format!("server receives {}", m.show()));
                if let Msg::Close(_) = m {
                    match self.on_close.clone() {
                        OnClose::Echo(extra) => {
                            self.inbound.extend(extra);
                            if !self.sent_close {
                                self.inbound.extend(close_frame(Some(1000)));
                            }
                            self.eof = true;
                        }
                        OnClose::EchoOnly => {
                            if !self.sent_close {
                                self.inbound.extend(close_frame(Some(1000)))
                            }
                        }
                        OnClose::Eof => self.eof = true,
                        OnClose::Nothing => (),
                    }
                }
                if let Some(f) = self.on_msg.as_mut() {
                    let r = f(&m);
                    self.inbound.extend(r);
                }
                self.got.push(m);
            }
        }
    }

    fn next_frame(&mut self) -> Option<(Option<Msg>, usize)> {
        let b = &self.raw[self.pos..];
        if b.len() < 2 {
            return None;
        }
        let (fin, rsv, op) = (b[0] & 0x80 != 0, b[0] & 0x70, b[0] & 15);
        let masked = b[1] & 0x80 != 0;
        let mut i = 2;
        let len = match b[1] & 0x7f {
            126 => {
                if b.len() < 4 {
                    return None;
                }
                i = 4;
                u16::from_be_bytes([b[2], b[3]]) as usize
            }
            127 => {
                if b.len() < 10 {
                    return None;
                }
                i = 10;
                u64::from_be_bytes([b[2], b[3], b[4], b[5], b[6], b[7], b[8], b[9]]) as usize
            }
            n => n as usize,
        };
        let mask = if masked {
            if b.len() < i + 4 {
                return None;
            }
            i += 4;
            [b[i - 4], b[i - 3], b[i - 2], b[i - 1]]
        } else {
            [0; 4]
        };
        if b.len() < i + len {
            return None;
        }
        let payload: Vec<u8> = b[i..i + len].iter().enumerate().map(|(k, x)| x ^ mask[k & 3]).collect();
        let n = i + len;
        if rsv != 0 || !masked {
            return Some((Some(Msg::Bad(format!("frame header {:02x} {:02x}", b[0], b[1]))), n));
        }
        let m = match op {
            0 | 1 | 2 => {
                let (o, mut acc) = match (op, self.frag.take()) {
                    (0, Some(f)) => f,
                    (0, None) | (_, Some(_)) => return Some((Some(Msg::Bad("continuation".into())), n)),
                    (o, None) => (o, Vec::new()),
                };
                acc.extend(payload);
                if !fin {
                    self.frag = Some((o, acc));
                    return Some((None, n));
                }
                if o == 1 {
                    match String::from_utf8(acc) {
                        Ok(s) => Msg::Text(s),
                        Err(_) => Msg::Bad("text that is not UTF-8".into()),
                    }
                } else {
                    Msg::Bin(acc)
                }
            }
            8 => Msg::Close(if payload.len() >= 2 {
                Some(u16::from_be_bytes([payload[0], payload[1]]))
            } else {
                None
            }),
            9 => Msg::Ping(payload),
            10 => Msg::Pong(payload),
            _ => Msg::Bad(format!("opcode {}", op)),
        };
        Some((Some(m), n))
    }
}

/// The client's end of the transport.
pub struct Stream(NetH);

impl Drop for Stream {
    fn drop(&mut self) {
        log_line(|| "transport dropped".into());
        self.0.with(|n| n.dropped = true)
    }
}

/// How many of `n` units are processed: a choice among the full amount and smaller ones.
fn amount(n: usize, s: Split) -> usize {
    let mut alts = vec![n];
    match s {
        Split::Full => (),
        Split::Few => {
            for k in [1, n / 2, n - 1] {
                if k >= 1 && !alts.contains(&k) {
                    alts.push(k)
                }
            }
        }
        Split::All => alts.extend(1..n),
    }
    alts[choose_cost(alts.len())]
}

impl AsyncRead for Stream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut n = (self.0).0.lock().unwrap();
        if n.inbound.is_empty() {
            if let Some(e) = n.read_err {
                return Poll::Ready(Err(e.into()));
            }
            if n.eof {
                return Poll::Ready(Ok(0));
            }
            n.rwaker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if n.rpend && choose_cost(2) == 1 {
            log_line(|| "read: not ready yet".into());
            sched::defer(cx.waker().clone());
            return Poll::Pending;
        }
        let avail = n.inbound.len().min(buf.len());
        if avail == 0 {
            return Poll::Ready(Ok(0));
        }
        let k = amount(avail, n.rsplit);
        for (d, s) in buf.iter_mut().zip(n.inbound.drain(..k)) {
            *d = s;
        }
        log_line(|| format!("read {} of {} bytes", k, avail));
        Poll::Ready(Ok(k))
    }
}

impl AsyncWrite for Stream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let wake;
        let k;
        {
            let mut n = (self.0).0.lock().unwrap();
            if let Some(e) = n.write_err {
                return Poll::Ready(Err(e.into()));
            }
            if n.shut {
                return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
            }
            if buf.is_empty() {
                return Poll::Ready(Ok(0));
            }
            let avail = match n.held {
                Some(_) if n.open => buf.len(),
                _ => buf.len().min(n.credit.unwrap_or(usize::MAX)),
            };
            if avail == 0 {
                n.wwaker = Some(cx.waker().clone());
                log_line(|| "write: blocked".into());
                return Poll::Pending;
            }
            if n.wpend && choose_cost(2) == 1 {
                log_line(|| "write: not ready yet".into());
                sched::defer(cx.waker().clone());
                return Poll::Pending;
            }
            k = amount(avail, n.wsplit);
            log_line(|| format!("write {} of {} bytes", k, buf.len()));
            let open = n.open;
            if let Some(h) = n.held.as_mut().filter(|_| open) {
                h.extend_from_slice(&buf[..k]);
                return Poll::Ready(Ok(k));
            }
            if let Some(c) = n.credit.as_mut() {
                *c -= k;
            }
            n.raw.extend_from_slice(&buf[..k]);
            n.serve();
            let readable = !n.inbound.is_empty() || n.eof || n.read_err.is_some();
            wake = if readable { n.rwaker.take() } else { None };
        }
        if let Some(w) = wake {
            w.wake()
        }
        Poll::Ready(Ok(k))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let wake;
        let left;
        {
            let mut n = (self.0).0.lock().unwrap();
            if n.fpend && choose_cost(2) == 1 {
                log_line(|| "flush: not ready yet".into());
                sched::defer(cx.waker().clone());
                return Poll::Pending;
            }
            let len = n.held.as_ref().map_or(0, |h| h.len());
            if len == 0 {
                return Poll::Ready(Ok(()));
            }
            if let Some(e) = n.write_err {
                return Poll::Ready(Err(e.into()));
            }
            let avail = len.min(n.credit.unwrap_or(usize::MAX));
            if let Some(c) = n.credit.as_mut() {
                *c -= avail;
            }
            let out: Vec<u8> = n.held.as_mut().unwrap().drain(..avail).collect();
            n.raw.extend(out);
            log_line(|| format!("flush {} of {} bytes", avail, len));
            left = len - avail;
            if left > 0 {
                n.wwaker = Some(cx.waker().clone());
            }
            n.serve();
            let readable = !n.inbound.is_empty() || n.eof || n.read_err.is_some();
            wake = if readable { n.rwaker.take() } else { None };
        }
        if let Some(w) = wake {
            w.wake()
        }
        if left > 0 {
            return Poll::Pending;
        }
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.0.with(|n| n.shut = true);
        Poll::Ready(Ok(()))
    }
}

/// One spawned task, as the executor knows it.
pub struct Task {
    pub id: usize,
    pub done: AtomicBool,
    /// Polls begun.
    pub polls: AtomicUsize,
    pub polling: AtomicBool,
}

pub struct Spawner {
    pub tasks: Arc<Mutex<Vec<Arc<Task>>>>,
    pub fail: bool,
}

struct Tracked {
    fut: Option<FutureObj<'static, ()>>,
    task: Arc<Task>,
}

impl Future for Tracked {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        self.task.polls.fetch_add(1, SeqCst);
        self.task.polling.store(true, SeqCst);
        let t = self.task.clone();
        let r = Pin::new(self.fut.as_mut().expect("polled after completion")).poll(cx);
        t.polling.store(false, SeqCst);
        if r.is_ready() {
            // An executor drops a finished task.
            self.fut = None;
        }
        r
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        self.fut = None;
        self.task.done.store(true, SeqCst);
    }
}

impl Spawner {
    pub fn new() -> Spawner {
        Spawner {
            tasks: Arc::default(),
            fail: false,
        }
    }
}
impl Default for Spawner {
    fn default() -> Self {
        Spawner::new()
    }
}
impl Spawn for Spawner {
    fn spawn_obj(&self, f: FutureObj<'static, ()>) -> Result<(), SpawnError> {
        if self.fail {
            return Err(SpawnError::shutdown());
        }
        let task = Arc::new(Task {
            id: 0,
            done: AtomicBool::new(false),
            polls: AtomicUsize::new(0),
            polling: AtomicBool::new(false),
        });
        self.tasks.lock().unwrap().push(task.clone());
        sched::spawn_task("connection task", Box::pin(Tracked { fut: Some(f), task }));
        Ok(())
    }
}

/// What the handlers saw, in order.
#[derive(Clone, Default)]
pub struct Obs(pub Arc<Mutex<Vec<String>>>);

impl Obs {
    pub fn push(&self, s: impl Into<String>) {
        let s = s.into();
        log_line(|| format!("observed: {}", s));
        self.0.lock().unwrap().push(s)
    }
    pub fn get(&self) -> Vec<String> {
        self.0.lock().unwrap().clone()
    }
    pub fn take(&self) -> Vec<String> {
        std::mem::take(&mut *self.0.lock().unwrap())
    }
}

/// Arguments as one line of JSON values (placeholders resolved, object keys sorted).
pub fn show_args(a: &Args) -> String {
    let mut s = String::from("[");
    for (i, x) in a.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        match x.to_json_value() {
            Ok(v) => s.push_str(&v.to_string()),
            Err(_) => s.push_str("<error>"),
        }
    }
    s.push(']');
    s
}

/// A handler that records "name#call args" and drops the reply handle.
pub fn handler(obs: &Obs, name: &str) -> EventCallback {
    let obs = obs.clone();
    let name = name.to_string();
    let mut n = 0;
    EventCallback::from(move |args: &Args, ack: Option<AckBuilder>| {
        n += 1;
        obs.push(format!(
            "{}#{} {}{}",
            name,
            n,
            show_args(args),
            if ack.is_some() { " ack" } else { "" }
        ));
    })
}

pub fn ack_handler(obs: &Obs, name: &str) -> AckCallback {
    let obs = obs.clone();
    let name = name.to_string();
    AckCallback::from(move |args: &Args| obs.push(format!("{} {}", name, show_args(args))))
}

pub struct Ctx {
    pub net: NetH,
    pub obs: Obs,
    pub spawner: Spawner,
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx {
            net: NetH::new(),
            obs: Obs::default(),
            spawner: Spawner::new(),
        }
    }

    /// A client over this transport; schedule and transport choices are not explored until it is up.
    pub fn connect(&self) -> Result<Client, Viol> {
        self.connect_to("ws://h/")
    }
    pub fn connect_to(&self, url: &str) -> Result<Client, Viol> {
        mcrt::costed_choices(false);
        let r = sched::block_on("connecting", Client::from_stream(url, self.net.stream(), &self.spawner));
        let c = r.map_err(|e| viol("connect", format!("connecting failed: {}", e)))?;
        sched::settle();
        mcrt::costed_choices(true);
        Ok(c)
    }

    pub fn task(&self) -> Arc<Task> {
        self.spawner.tasks.lock().unwrap()[0].clone()
    }
    pub fn task_done(&self) -> bool {
        self.spawner.tasks.lock().unwrap().iter().all(|t| t.done.load(SeqCst))
    }

    /// Let everything run; nothing may be left unread by a live connection.
    pub fn settle(&self) -> Result<(), Viol> {
        sched::settle();
        if !self.task_done() && !self.net.dropped() && self.net.pending_in() > 0 && self.net.0.lock().unwrap().credit != Some(0) {
            return Err(viol(
                "stall",
                format!("{} bytes from the server are left unread though nothing blocks the client", self.net.pending_in()),
            ));
        }
        Ok(())
    }

    pub fn close(&self, c: &mut Client) -> Result<(), socket_io_client::Error> {
        sched::block_on("closing", c.close())
    }
}

impl Default for Ctx {
    fn default() -> Self {
        Ctx::new()
    }
}

/// Run one world; the function is the main thread.  Panics, deadlocks and livelocks are violations.
pub fn run(cfg: &WorldCfg, f: impl FnOnce(&Ctx) -> Result<u64, Viol> + 'static) -> Result<u64, Viol> {
    setup();
    mcrt::explore::choose_order(cfg.orders);
    let out: Arc<Mutex<Option<Result<u64, Viol>>>> = Arc::default();
    let o = out.clone();
    let end = sched::run_world(cfg.clone(), move || {
        let ctx = Ctx::new();
        let r = f(&ctx);
        *o.lock().unwrap() = Some(r);
    });
    let r = out.lock().unwrap().take();
    judge(&end, r)
}

fn judge(end: &End, r: Option<Result<u64, Viol>>) -> Result<u64, Viol> {
    // A verdict reached by the script comes first; it is the more specific one.
    if let Some(Err(v)) = r {
        if end.panics.is_empty() {
            return Err(v);
        }
        return Err(viol(v.key, format!("{}; {}", v.msg, end.panics.join("; "))));
    }
    if !end.panics.is_empty() {
        return Err(viol("panic", end.panics.join("; ")));
    }
    if end.livelock {
        return Err(viol("livelock", end.stuck.clone().unwrap_or_default()));
    }
    if let Some(s) = &end.stuck {
        return Err(viol("deadlock", format!("nothing can run any more: {}", s)));
    }
    match r {
        Some(r) => r,
        None => Err(viol("no-verdict", "the main thread did not finish")),
    }
}

fn setup() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        #[cfg(sio_mc)]
        socket_io_client::sync::set_lock_hook(|| mcrt::point("lock"));
        sched::AFTER.store(true, SeqCst);
        static L: Sink = Sink;
        let _ = log::set_logger(&L);
        log::set_max_level(log::LevelFilter::Trace);
    });
}

std::thread_local! {
    static LOGS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Whether a logger that formats every record is installed, for the rest of this execution.
pub fn user_logging(on: bool) {
    LOGS.with(|l| l.set(on))
}

struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        LOGS.with(|l| l.get())
    }
    fn log(&self, r: &log::Record) {
        if LOGS.with(|l| l.get()) {
            let s = r.args().to_string();
            std::hint::black_box(s.len());
        }
    }
    fn flush(&self) {}
}

pub fn dig(parts: &[Vec<String>]) -> u64 {
    digest(&format!("{:?}", parts))
}

pub fn secs(s: f64) -> Duration {
    Duration::from_millis((s * 1000.0) as u64)
}

pub fn eq_list(key: &str, what: &str, got: &[String], want: &[String]) -> Result<(), Viol> {
    if got == want {
        return Ok(());
    }
    if got.len().max(want.len()) <= 20 {
        return Err(viol(key, format!("{}: got {:?}, expected {:?}", what, got, want)));
    }
    let i = (0..got.len().min(want.len())).find(|i| got[*i] != want[*i]).unwrap_or(got.len().min(want.len()));
    let part = |l: &[String]| l.iter().skip(i).take(3).cloned().collect::<Vec<_>>();
    let (n, m) = (got.len(), want.len());
    Err(viol(key, format!("{}: from entry {} on got {:?} ({} in all), expected {:?} ({} in all)", what, i, part(got), n, part(want), m)))
}

pub fn shown(v: &[Msg]) -> Vec<String> {
    v.iter().map(Msg::show).collect()
}
