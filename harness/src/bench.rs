//! A fake VARA modem on loopback, and a client that drives the code under test from its own
//! runtime. The case's thread plays the modem; everything it learns arrives as events.
use crate::engine::{clock_opt, hex, thread_clock, Panics, INCONCLUSIVE};
use crate::logs;
use plusendi::modem::vara::*;
use plusendi::{StationId, StationIdRef};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, VecDeque};
use std::future::Future;
use std::io::{ErrorKind, IoSlice, Read, Write};
use std::net::{Ipv4Addr, Shutdown, TcpListener, TcpStream};
use std::num::NonZeroU16;
use std::os::unix::io::AsRawFd;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};
use tokio::io::{AsyncReadExt, AsyncWrite, AsyncWriteExt};
use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender};

// ---- is this machine making progress at all? ----

static TICKS: AtomicU64 = AtomicU64::new(0);

/// Counts loopback round trips between two threads, about 500 per second on a free machine.
pub fn metronome() -> u64 {
    static ON: OnceLock<()> = OnceLock::new();
    ON.get_or_init(|| {
        let l = TcpListener::bind((Ipv4Addr::LOCALHOST, 0)).expect("metronome");
        let mut a = TcpStream::connect(l.local_addr().unwrap()).expect("metronome");
        let (mut b, _) = l.accept().expect("metronome");
        let _ = a.set_nodelay(true);
        let _ = b.set_nodelay(true);
        std::thread::spawn(move || {
            let mut x = [0];
            while b.read_exact(&mut x).is_ok() && b.write_all(&x).is_ok() {}
        });
        std::thread::spawn(move || {
            let mut x = [0];
            while a.write_all(&x).is_ok() && a.read_exact(&mut x).is_ok() {
                TICKS.fetch_add(1, Ordering::Relaxed);
                std::thread::sleep(Duration::from_millis(2));
            }
        });
    });
    TICKS.load(Ordering::Relaxed)
}

/// No progress in this time, while loopback traffic flows, is a stall.
pub const STALL: Duration = Duration::from_secs(8);
const STALL_TICKS: u64 = 1000;
/// CPU time spent without any progress that counts as spinning.
const SPIN: Duration = Duration::from_secs(3);

pub struct Patience {
    start: Instant,
    ticks: u64,
}
impl Patience {
    pub fn new() -> Self {
        Patience { start: Instant::now(), ticks: metronome() }
    }
    pub fn check(&self, what: &str) -> Result<(), String> {
        let waited = self.start.elapsed();
        if waited > STALL && metronome() - self.ticks > STALL_TICKS {
            return Err(format!("stalled: {} (nothing for {:.0} s)", what, waited.as_secs_f64()));
        }
        if waited > Duration::from_secs(200) {
            return Err(format!("{}: machine too slow while waiting for: {}", INCONCLUSIVE, what));
        }
        Ok(())
    }
}

// ---- requests and events ----

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Cmd {
    MyCall(Vec<String>),
    Compression(u8),
    Bandwidth(u8),
    Disconnect,
    Abort,
}

pub fn render(c: &Cmd) -> String {
    match c {
        Cmd::MyCall(v) => format!("MYCALL {}", v.join(" ")),
        Cmd::Compression(i) => format!("COMPRESSION {}", ["OFF", "TEXT", "FILES"][*i as usize]),
        Cmd::Bandwidth(i) => ["BW500", "BW2300", "BW2750"][*i as usize].to_string(),
        Cmd::Disconnect => "DISCONNECT".into(),
        Cmd::Abort => "ABORT".into(),
    }
}

fn id(s: &str) -> StationId {
    StationId::new(s).unwrap_or_else(|_| panic!("harness: generated callsign {:?} refused", s))
}

async fn call(tnc: &VaraTnc, c: Cmd) -> Result<(), String> {
    match c {
        Cmd::MyCall(v) => {
            let mut ids: Vec<StationId> = v.iter().map(|s| id(s)).collect();
            let first = ids.remove(0);
            // a single callsign either way
            if ids.is_empty() && first.as_str().len() % 2 == 0 {
                tnc.send_callsign(first).await
            } else {
                tnc.send_callsign(MyCallSigns(first, ids)).await
            }
        }
        Cmd::Compression(i) => tnc.send_compression([CompressionMode::Off, CompressionMode::Text, CompressionMode::Files][i as usize]).await,
        Cmd::Bandwidth(i) => tnc.send_bandwidth([BandwidthMode::Narrow, BandwidthMode::Wide, BandwidthMode::Tactical][i as usize]).await,
        Cmd::Disconnect => tnc.send_disconnect().await,
        Cmd::Abort => tnc.send_abort().await,
    }
    .map_err(|e| format!("{:?}", e))
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Status {
    pub buffer: usize,
    pub busy: bool,
    pub tx: bool,
    pub heartbeat: Instant,
    pub registered: Vec<bool>,
}

#[derive(Debug)]
pub enum LinkOp {
    /// One read into a buffer of this size.
    Read(usize),
    /// One poll of a read; reports WouldBlock if nothing came.
    PollRead(usize),
    /// Reads in one task until end-of-stream with buffers of these sizes in turn.
    ReadToEnd(Vec<usize>),
    /// Reads exactly this many bytes in one task with buffers of these sizes in turn.
    ReadExact(usize, Vec<usize>),
    Write(Vec<u8>),
    WriteAll(Vec<u8>),
    WriteVectored(Vec<Vec<u8>>),
    Flush,
    Shutdown,
    /// Reads and writes at the same time: read `expect` bytes with these buffer sizes; write these chunks, `vectored` (if not 0) of them at once.
    Duplex { expect: usize, bufs: Vec<usize>, writes: Vec<Vec<u8>>, vectored: usize, flush: bool },
    /// A read and a large write waiting at the same time, as two tasks; `write_first` polls the write first.
    WaitBoth { write: usize, write_first: bool },
    Disconnect,
    Abort,
    /// A disconnect (or an abort) given up after its first poll.
    Forsake(bool),
    Drop,
}

pub enum Req {
    Call(u32, Cmd),
    Abandon(u32),
    Connect(u32, String, String),
    Link(u32, LinkOp),
    Status(u32, Vec<String>),
    Ptt(u32, bool),
    Ping(u32),
    /// This many tasks call one after the other until a call fails, each then reports on a slot of its own.
    Storm(u32, u32),
    DropTnc(u32),
    /// A connect attempt looked at once and given up.
    Glimpse(u32, String, String),
    /// One after the other, without a pause.
    All(Vec<Req>),
}

/// Requests in order.
struct Inbox {
    first: VecDeque<Req>,
    rx: UnboundedReceiver<Req>,
}

impl Inbox {
    async fn recv(&mut self) -> Option<Req> {
        loop {
            if let Some(r) = self.first.pop_front() {
                return Some(r);
            }
            match self.rx.recv().await? {
                Req::All(v) => self.first.extend(v),
                r => return Some(r),
            }
        }
    }
}

pub type IoRes<T> = Result<T, (ErrorKind, String)>;

#[derive(Debug)]
pub enum Ev {
    Ctl(Vec<u8>),
    CtlEnd,
    Data(Vec<u8>),
    DataEnd,
    /// Result of a call, connect, disconnect or abort.
    Done(u32, Result<(), String>),
    /// Result of a link operation: bytes read, bytes written.
    Io(u32, IoRes<(Vec<u8>, usize)>),
    /// The request was carried out.
    Ack(u32),
    Status(u32, Status),
    PttLost(u32),
}

fn ioerr(e: std::io::Error) -> (ErrorKind, String) {
    (e.kind(), e.to_string())
}


/// One poll of a read, into a buffer that already holds some bytes, which have to stay.
fn poll_some<R: tokio::io::AsyncRead + Unpin>(r: &mut R, cx: &mut std::task::Context<'_>, n: usize) -> std::task::Poll<std::io::Result<Vec<u8>>> {
    let held = [0, 7, 1, 300][n % 4];
    let mut mem = vec![std::mem::MaybeUninit::new(0xEE); held + n];
    let mut buf = tokio::io::ReadBuf::uninit(&mut mem);
    let before: Vec<u8> = (0..held).map(|i| 0x41 + (i % 23) as u8).collect();
    buf.put_slice(&before);
    Pin::new(r).poll_read(cx, &mut buf).map(|res| {
        res.and_then(|()| match buf.filled().strip_prefix(&before[..]) {
            Some(new) => Ok(new.to_vec()),
            None => Err(std::io::Error::new(ErrorKind::Other, "the read changed what the buffer held before")),
        })
    })
}

async fn read_some<R: tokio::io::AsyncRead + Unpin>(r: &mut R, n: usize) -> std::io::Result<Vec<u8>> {
    std::future::poll_fn(|cx: &mut std::task::Context<'_>| poll_some(&mut *r, cx, n)).await
}

async fn read_loop<R: tokio::io::AsyncRead + Unpin>(r: &mut R, bufs: &[usize], limit: Option<usize>) -> IoRes<Vec<u8>> {
    let mut all = Vec::new();
    let mut i = 0;
    loop {
        let mut want = bufs[i % bufs.len()].max(1);
        i += 1;
        if let Some(l) = limit {
            if all.len() >= l {
                return Ok(all);
            }
            want = want.min(l - all.len());
        }
        match read_some(r, want).await {
            Ok(new) => {
                if new.is_empty() {
                    return Ok(all);
                }
                all.extend(new);
                if all.len() > 64 << 20 {
                    return Err((ErrorKind::Other, "endless data".into()));
                }
            }
            Err(e) => return Err(ioerr(e)),
        }
    }
}

async fn write_vectored<W: AsyncWrite + Unpin, B: AsRef<[u8]>>(w: &mut W, parts: &[B]) -> std::io::Result<usize> {
    let slices: Vec<IoSlice> = parts.iter().map(|p| IoSlice::new(p.as_ref())).collect();
    std::future::poll_fn(|cx: &mut std::task::Context<'_>| Pin::new(&mut *w).poll_write_vectored(cx, &slices)).await
}

/// One direction of a stream shared by two futures. (Unlike tokio's own halves, vectored writes pass through.)
struct Side<'a, S>(Arc<Mutex<&'a mut S>>);

fn halves<S: Unpin>(s: &mut S) -> (Side<'_, S>, Side<'_, S>) {
    let a = Arc::new(Mutex::new(s));
    (Side(a.clone()), Side(a))
}

impl<S: tokio::io::AsyncRead + Unpin> tokio::io::AsyncRead for Side<'_, S> {
    fn poll_read(self: Pin<&mut Self>, cx: &mut std::task::Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> std::task::Poll<std::io::Result<()>> {
        Pin::new(&mut **self.0.lock().unwrap()).poll_read(cx, buf)
    }
}

impl<S: AsyncWrite + Unpin> AsyncWrite for Side<'_, S> {
    fn poll_write(self: Pin<&mut Self>, cx: &mut std::task::Context<'_>, buf: &[u8]) -> std::task::Poll<std::io::Result<usize>> {
        Pin::new(&mut **self.0.lock().unwrap()).poll_write(cx, buf)
    }
    fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut std::task::Context<'_>, bufs: &[IoSlice<'_>]) -> std::task::Poll<std::io::Result<usize>> {
        Pin::new(&mut **self.0.lock().unwrap()).poll_write_vectored(cx, bufs)
    }
    fn is_write_vectored(&self) -> bool {
        self.0.lock().unwrap().is_write_vectored()
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<std::io::Result<()>> {
        Pin::new(&mut **self.0.lock().unwrap()).poll_flush(cx)
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<std::io::Result<()>> {
        Pin::new(&mut **self.0.lock().unwrap()).poll_shutdown(cx)
    }
}

struct Half {
    woken: AtomicBool,
    parent: Mutex<Option<std::task::Waker>>,
}
impl std::task::Wake for Half {
    fn wake(self: Arc<Self>) {
        self.woken.store(true, Ordering::SeqCst);
        if let Some(w) = self.parent.lock().unwrap().take() {
            w.wake()
        }
    }
}

/// Joins two futures, each with a waker of its own as if they were separate tasks.
async fn join_tasks<A: Future, B: Future>(a: A, b: B) -> (A::Output, B::Output) {
    let (mut a, mut b) = (Box::pin(a), Box::pin(b));
    let half = || Arc::new(Half { woken: AtomicBool::new(true), parent: Mutex::new(None) });
    let (ha, hb) = (half(), half());
    let (wa, wb) = (std::task::Waker::from(ha.clone()), std::task::Waker::from(hb.clone()));
    let (mut ra, mut rb) = (None, None);
    std::future::poll_fn(move |cx: &mut std::task::Context<'_>| {
        for h in [&ha, &hb] {
            *h.parent.lock().unwrap() = Some(cx.waker().clone());
        }
        if ra.is_none() && ha.woken.swap(false, Ordering::SeqCst) {
            if let std::task::Poll::Ready(x) = a.as_mut().poll(&mut std::task::Context::from_waker(&wa)) {
                ra = Some(x);
            }
        }
        if rb.is_none() && hb.woken.swap(false, Ordering::SeqCst) {
            if let std::task::Poll::Ready(x) = b.as_mut().poll(&mut std::task::Context::from_waker(&wb)) {
                rb = Some(x);
            }
        }
        if ra.is_some() && rb.is_some() {
            return std::task::Poll::Ready((ra.take().unwrap(), rb.take().unwrap()));
        }
        // a wake during the polls took the parent waker already
        std::task::Poll::Pending
    })
    .await
}

async fn link_op(stream: &mut VaraStream<'_>, op: LinkOp) -> IoRes<(Vec<u8>, usize)> {
    match op {
        LinkOp::Read(n) => read_some(stream, n).await.map(|b| (b, 0)).map_err(ioerr),
        LinkOp::PollRead(n) => match std::future::poll_fn(|cx: &mut std::task::Context<'_>| std::task::Poll::Ready(poll_some(stream, cx, n))).await {
            std::task::Poll::Ready(r) => r.map(|b| (b, 0)).map_err(ioerr),
            std::task::Poll::Pending => Err((ErrorKind::WouldBlock, "pending".into())),
        },
        LinkOp::ReadToEnd(bufs) => read_loop(stream, &bufs, None).await.map(|b| (b, 0)),
        LinkOp::ReadExact(n, bufs) => read_loop(stream, &bufs, Some(n)).await.map(|b| (b, 0)),
        LinkOp::Write(b) => stream.write(&b).await.map(|n| (vec![], n)).map_err(ioerr),
        LinkOp::WriteAll(b) => stream.write_all(&b).await.map(|_| (vec![], b.len())).map_err(ioerr),
        LinkOp::WriteVectored(parts) => write_vectored(stream, &parts).await.map(|n| (vec![], n)).map_err(ioerr),
        LinkOp::Flush => stream.flush().await.map(|_| (vec![], 0)).map_err(ioerr),
        LinkOp::Shutdown => stream.shutdown().await.map(|_| (vec![], 0)).map_err(ioerr),
        LinkOp::Duplex { expect, bufs, writes, vectored, flush } => {
            let (mut r, mut w) = halves(stream);
            let reading = read_loop(&mut r, &bufs, Some(expect));
            let writing = async {
                let mut total = 0;
                if vectored > 0 {
                    // (piece, taken so far)
                    let mut flat: VecDeque<(Vec<u8>, usize)> = writes.into_iter().filter(|c| !c.is_empty()).map(|c| (c, 0)).collect();
                    while !flat.is_empty() {
                        let mut n = {
                            let parts: Vec<&[u8]> = flat.iter().take(vectored).map(|(c, at)| &c[*at..]).collect();
                            let n = write_vectored(&mut w, &parts).await.map_err(ioerr)?;
                            if n < parts.iter().map(|p| p.len()).sum() {
                                PARTIAL.fetch_add(1, Ordering::Relaxed);
                            }
                            n
                        };
                        if n == 0 {
                            return Err((ErrorKind::WriteZero, "wrote nothing".to_string()));
                        }
                        total += n;
                        while n > 0 {
                            let (first, at) = flat.front_mut().ok_or((ErrorKind::Other, "reported more bytes written than given".to_string()))?;
                            let step = n.min(first.len() - *at);
                            *at += step;
                            n -= step;
                            if *at == first.len() {
                                flat.pop_front();
                            }
                        }
                    }
                } else {
                    for c in writes {
                        w.write_all(&c).await.map_err(ioerr)?;
                        total += c.len();
                        if flush {
                            w.flush().await.map_err(ioerr)?;
                        }
                    }
                }
                Ok(total)
            };
            let (a, b) = join_tasks(reading, writing).await;
            Ok((a?, b?))
        }
        LinkOp::WaitBoth { write, write_first } => {
            let (mut r, mut w) = halves(stream);
            let reading = async move {
                read_some(&mut r, 100).await.map_err(ioerr)
            };
            let writing = async move { w.write_all(&vec![9; write]).await.map_err(ioerr) };
            let (a, b) = if write_first {
                let (b, a) = join_tasks(writing, reading).await;
                (a, b)
            } else {
                join_tasks(reading, writing).await
            };
            match b {
                Err((ErrorKind::ConnectionAborted, _)) => a.map(|v| (v, 0)),
                other => Err((ErrorKind::Other, format!("the write gave {:?}", other))),
            }
        }
        LinkOp::Disconnect | LinkOp::Abort | LinkOp::Forsake(_) | LinkOp::Drop => unreachable!(),
    }
}

async fn simple(req: Req, ptt: &mut tokio::sync::watch::Receiver<TransceiverCommand>, out: &Sender<Ev>) -> Option<Req> {
    match req {
        Req::Ping(s) => {
            tokio::task::yield_now().await;
            let _ = out.send(Ev::Ack(s));
            None
        }
        Req::Ptt(s, want) => {
            loop {
                if (*ptt.borrow_and_update() == TransceiverCommand::Transmit) == want {
                    let _ = out.send(Ev::Ack(s));
                    break;
                }
                if ptt.changed().await.is_err() {
                    let _ = out.send(Ev::PttLost(s));
                    break;
                }
            }
            None
        }
        r => Some(r),
    }
}

async fn client(tnc: VaraTnc, rx: UnboundedReceiver<Req>, out: Sender<Ev>) {
    let mut rx = Inbox { first: VecDeque::new(), rx };
    let mut ptt = tnc.subscribe_rig_command();
    let mut tnc = Some(Arc::new(tnc));
    let mut calls: HashMap<u32, tokio::task::JoinHandle<()>> = HashMap::new();
    while let Some(req) = rx.recv().await {
        let Some(req) = simple(req, &mut ptt, &out).await else { continue };
        match req {
            Req::Call(s, c) => {
                let t = tnc.clone().expect("harness: call without handle");
                let o = out.clone();
                calls.insert(
                    s,
                    tokio::spawn(async move {
                        let r = call(&t, c).await;
                        drop(t);
                        let _ = o.send(Ev::Done(s, r));
                    }),
                );
            }
            Req::Storm(s, n) => {
                for i in 0..n {
                    let (t, o) = (tnc.clone().expect("harness: call without handle"), out.clone());
                    tokio::spawn(async move {
                        let mut answered = 0;
                        while call(&t, Cmd::Bandwidth(i as u8 % 3)).await.is_ok() {
                            answered += 1;
                        }
                        drop(t);
                        let _ = o.send(Ev::Done(s + i, Err(format!("after {} replies", answered))));
                    });
                }
            }
            Req::Abandon(s) => {
                if let Some(h) = calls.remove(&s) {
                    h.abort();
                    let _ = h.await;
                }
                let _ = out.send(Ev::Ack(s));
            }
            Req::Status(s, ids) => {
                let t = tnc.as_ref().unwrap();
                let st = Status {
                    buffer: t.buffer(),
                    busy: t.busy_state() == BusyState::Busy,
                    tx: *t.subscribe_rig_command().borrow() == TransceiverCommand::Transmit,
                    heartbeat: t.last_heartbeat(),
                    registered: ids.iter().map(|i| t.local_registration(&StationIdRef::from_str(i).expect("harness callsign")) == Registration::Registered).collect(),
                };
                let _ = out.send(Ev::Status(s, st));
            }
            Req::Connect(s, a, b) => {
                while Arc::strong_count(tnc.as_ref().unwrap()) > 1 {
                    tokio::task::yield_now().await;
                }
                let t = Arc::get_mut(tnc.as_mut().unwrap()).expect("exclusive handle");
                let mut fut = Box::pin(t.connect(id(&a), id(&b)));
                let linked = loop {
                    tokio::select! {
                        r = &mut fut => break Some(r),
                        req = rx.recv() => match req {
                            None => return,
                            Some(Req::Abandon(_)) => break None,
                            Some(r) => { simple(r, &mut ptt, &out).await; }
                        }
                    }
                };
                drop(fut);
                match linked {
                    None => {
                        let _ = out.send(Ev::Ack(s));
                    }
                    Some(Err(e)) => {
                        let _ = out.send(Ev::Done(s, Err(format!("{:?}", e))));
                    }
                    Some(Ok(mut stream)) => {
                        let _ = out.send(Ev::Done(s, Ok(())));
                        while let Some(req) = rx.recv().await {
                            let Some(req) = simple(req, &mut ptt, &out).await else { continue };
                            match req {
                                Req::Link(s, op @ (LinkOp::Disconnect | LinkOp::Abort | LinkOp::Forsake(_))) => {
                                    let mut fut: Pin<Box<dyn Future<Output = color_eyre::Result<()>> + Send + '_>> = match op {
                                        LinkOp::Abort | LinkOp::Forsake(true) => Box::pin(stream.abort()),
                                        _ => Box::pin(stream.disconnect()),
                                    };
                                    if let LinkOp::Forsake(_) = op {
                                        std::future::poll_fn(|cx: &mut std::task::Context<'_>| std::task::Poll::Ready(fut.as_mut().poll(cx).is_ready())).await;
                                        drop(fut);
                                        let _ = out.send(Ev::Ack(s));
                                        break;
                                    }
                                    loop {
                                        tokio::select! {
                                            r = &mut fut => {
                                                let _ = out.send(Ev::Done(s, r.map_err(|e| format!("{:?}", e))));
                                                break;
                                            }
                                            req = rx.recv() => match req {
                                                None => return,
                                                Some(Req::Abandon(_)) => {
                                                    drop(fut);
                                                    let _ = out.send(Ev::Ack(s));
                                                    break;
                                                }
                                                Some(r) => { simple(r, &mut ptt, &out).await; }
                                            }
                                        }
                                    }
                                    break;
                                }
                                Req::Link(s, LinkOp::Drop) => {
                                    drop(stream);
                                    let _ = out.send(Ev::Ack(s));
                                    break;
                                }
                                Req::Abandon(s) => {
                                    drop(stream);
                                    let _ = out.send(Ev::Ack(s));
                                    break;
                                }
                                Req::Link(s, op) => {
                                    let r = link_op(&mut stream, op).await;
                                    let _ = out.send(Ev::Io(s, r));
                                }
                                _ => panic!("harness: request not possible on a live link"),
                            }
                        }
                    }
                }
            }
            Req::Glimpse(s, a, b) => {
                let t = Arc::get_mut(tnc.as_mut().unwrap()).expect("exclusive handle");
                let mut fut = Box::pin(t.connect(id(&a), id(&b)));
                std::future::poll_fn(|cx: &mut std::task::Context<'_>| std::task::Poll::Ready(fut.as_mut().poll(cx).is_ready())).await;
                drop(fut);
                let _ = out.send(Ev::Ack(s));
            }
            Req::DropTnc(s) => {
                tnc = None;
                let _ = out.send(Ev::Ack(s));
            }
            _ => panic!("harness: request needs a link"),
        }
    }
}

// ---- the bench ----

pub fn fresh_host() -> Ipv4Addr {
    static NEXT: AtomicU32 = AtomicU32::new(0);
    let n = NEXT.fetch_add(1, Ordering::Relaxed);
    let a = 1 + (std::process::id() % 250) as u8;
    Ipv4Addr::new(127, a, (n >> 8) as u8, n as u8)
}

/// How the code under test is run.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Mode {
    /// More than one runtime thread.
    pub multi: bool,
    /// Every log level formatted.
    pub verbose: bool,
}

pub fn mode() -> impl Strategy<Value = Mode> {
    (prop::bool::weighted(0.3), prop::bool::weighted(0.25)).prop_map(|(multi, verbose)| Mode { multi, verbose })
}

pub struct Runtime {
    pub name: String,
    clocks: Arc<Mutex<Vec<libc::clockid_t>>>,
}

static RT: AtomicU32 = AtomicU32::new(0);

impl Runtime {
    /// Runs `f` to completion on a runtime of its own.
    pub fn spawn<F, Fut>(mode: Mode, f: F) -> Runtime
    where
        F: FnOnce() -> Fut + Send + 'static,
        Fut: Future<Output = ()>,
    {
        let name = format!("sut-{}", RT.fetch_add(1, Ordering::Relaxed));
        let clocks = Arc::new(Mutex::new(Vec::new()));
        let (n2, c2) = (name.clone(), clocks.clone());
        std::thread::Builder::new()
            .name(name.clone())
            .spawn(move || {
                c2.lock().unwrap().push(thread_clock());
                let c3 = c2.clone();
                let mut b = if mode.multi { tokio::runtime::Builder::new_multi_thread() } else { tokio::runtime::Builder::new_current_thread() };
                if mode.multi {
                    b.worker_threads(2);
                }
                let _log = if mode.verbose { Some(tracing::dispatcher::set_default(logs::verbose())) } else { None };
                let rt = b
                    .enable_all()
                    .thread_name(n2)
                    .on_thread_start(move || {
                        c3.lock().unwrap().push(thread_clock());
                        if mode.verbose {
                            std::mem::forget(tracing::dispatcher::set_default(logs::verbose()));
                        }
                    })
                    .build()
                    .expect("runtime");
                rt.block_on(f());
                rt.shutdown_background();
            })
            .expect("thread");
        Runtime { name, clocks }
    }

    pub fn cpu(&self) -> Duration {
        self.clocks.lock().unwrap().iter().filter_map(|&c| clock_opt(c)).sum()
    }

    pub fn panics(&self) -> Vec<String> {
        Panics::of(&self.name)
    }

    /// Fails if the code keeps using CPU although there is nothing to do.
    pub fn idle(&self, what: &str) -> Result<(), String> {
        let t0 = Instant::now();
        let mut total = Duration::ZERO;
        loop {
            let c = self.cpu();
            std::thread::sleep(Duration::from_millis(15));
            let used = self.cpu().saturating_sub(c);
            if used < Duration::from_millis(3) {
                return Ok(());
            }
            total += used;
            if total > SPIN {
                return Err(format!("busy loop: {:.1} s of CPU used while there is nothing to do ({})", total.as_secs_f64(), what));
            }
            if t0.elapsed() > Duration::from_secs(120) {
                return Err(format!("{}: cannot measure CPU use ({})", INCONCLUSIVE, what));
            }
        }
    }
}

impl Drop for Runtime {
    fn drop(&mut self) {
        Panics::forget(&self.name);
    }
}

pub struct Gate {
    pub open: AtomicBool,
    pub chunk: AtomicUsize,
}

pub struct Bench {
    pub rt: Runtime,
    pub ctl: Option<TcpStream>,
    pub data: Option<TcpStream>,
    req: Option<UnboundedSender<Req>>,
    ev: Receiver<Ev>,
    queue: VecDeque<Ev>,
    line_buf: Vec<u8>,
    /// The longest line that is not taken for a flood.
    pub line_cap: usize,
    /// All command lines received so far.
    pub lines: Vec<String>,
    pub gate: Arc<Gate>,
    next: u32,
    pub ptt: bool,
}

/// How bytes are cut into segments.
#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Cuts {
    /// Chunk lengths, used in turn; empty: one segment.
    pub at: Vec<u16>,
    /// Pause between segments in units of 150 µs.
    pub pause: u8,
}

pub fn cuts() -> impl Strategy<Value = Cuts> {
    let sizes = prop_oneof![
        4 => Just(vec![]),
        3 => prop::collection::vec(1u16..12, 1..6),
        2 => prop::collection::vec(1u16..60, 1..4),
        1 => Just(vec![1u16]),
    ];
    (sizes, prop_oneof![2 => Just(0u8), 3 => Just(1u8), 1 => Just(3u8)]).prop_map(|(at, pause)| Cuts { at, pause })
}

pub fn send_cut(s: &mut TcpStream, bytes: &[u8], cuts: &Cuts) -> std::io::Result<()> {
    let mut rest = bytes;
    let mut i = 0;
    // not in too many pieces
    let least = bytes.len() / 2000 + 1;
    while !rest.is_empty() {
        let n = if cuts.at.is_empty() { rest.len() } else { (cuts.at[i % cuts.at.len()] as usize).max(least).min(rest.len()) };
        i += 1;
        s.write_all(&rest[..n])?;
        rest = &rest[n..];
        if !rest.is_empty() && cuts.pause > 0 && i <= 40 {
            std::thread::sleep(Duration::from_micros(150 * cuts.pause as u64));
        }
    }
    Ok(())
}

fn reader(mut s: TcpStream, out: Sender<Ev>, gate: Option<Arc<Gate>>) {
    std::thread::Builder::new()
        .name("reader".into())
        .stack_size(256 << 10)
        .spawn(move || {
            let mut buf = vec![0; 64 << 10];
            loop {
                let mut n = buf.len();
                if let Some(g) = &gate {
                    while !g.open.load(Ordering::Relaxed) {
                        std::thread::sleep(Duration::from_micros(500));
                    }
                    n = g.chunk.load(Ordering::Relaxed).clamp(1, n);
                }
                match s.read(&mut buf[..n]) {
                    Ok(0) | Err(_) => {
                        let _ = out.send(if gate.is_some() { Ev::DataEnd } else { Ev::CtlEnd });
                        return;
                    }
                    Ok(k) => {
                        let v = buf[..k].to_vec();
                        if out.send(if gate.is_some() { Ev::Data(v) } else { Ev::Ctl(v) }).is_err() {
                            return;
                        }
                    }
                }
            }
        })
        .expect("thread");
}

/// Accepts within the stall limit.
pub fn accept(l: &TcpListener, what: &str) -> Result<TcpStream, String> {
    l.set_nonblocking(true).unwrap();
    let p = Patience::new();
    loop {
        match l.accept() {
            Ok((s, _)) => {
                s.set_nonblocking(false).unwrap();
                let _ = s.set_nodelay(true);
                return Ok(s);
            }
            Err(e) if e.kind() == ErrorKind::WouldBlock => {
                p.check(what)?;
                std::thread::sleep(Duration::from_micros(100));
            }
            Err(e) => return Err(format!("{}: accept: {}", INCONCLUSIVE, e)),
        }
    }
}

pub fn outq(s: &TcpStream) -> i32 {
    let mut n: libc::c_int = 0;
    unsafe { libc::ioctl(s.as_raw_fd(), libc::TIOCOUTQ, &mut n) };
    n
}

/// Vectored writes taken in part.
pub static PARTIAL: AtomicU64 = AtomicU64::new(0);

/// Keeps the receive window small.
pub fn narrow(s: &TcpStream) {
    let n: libc::c_int = 32 << 10;
    unsafe { libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_RCVBUF, &n as *const _ as *const libc::c_void, std::mem::size_of_val(&n) as u32) };
}

pub fn reset(s: &TcpStream) {
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe { libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of_val(&l) as u32) };
}

/// Two listeners on an address of their own.
pub fn listen_pair() -> Result<(Ipv4Addr, TcpListener, TcpListener), String> {
    for _ in 0..20 {
        let host = fresh_host();
        if let (Ok(c), Ok(d)) = (TcpListener::bind((host, 0)), TcpListener::bind((host, 0))) {
            return Ok((host, c, d));
        }
    }
    Err(format!("{}: cannot bind on loopback", INCONCLUSIVE))
}

impl Bench {
    pub fn start(mode: Mode) -> Result<Bench, String> {
        metronome();
        let (host, cl, dl) = listen_pair()?;
        let (cp, dp) = (cl.local_addr().unwrap().port(), dl.local_addr().unwrap().port());
        let (req, rx) = unbounded_channel();
        let (out, ev) = channel();
        let o2 = out.clone();
        let rt = Runtime::spawn(mode, move || async move {
            let built = VaraTnc::builder().host(host.into()).control_port(NonZeroU16::new(cp).unwrap()).data_port(NonZeroU16::new(dp).unwrap()).build().await;
            match built {
                Ok(tnc) => {
                    let _ = o2.send(Ev::Ack(0));
                    client(tnc, rx, o2).await
                }
                Err(e) => {
                    let _ = o2.send(Ev::Done(0, Err(format!("build: {}", e))));
                }
            }
        });
        let ctl = accept(&cl, "the control connection is opened")?;
        let data = accept(&dl, "the data connection is opened")?;
        let gate = Arc::new(Gate { open: AtomicBool::new(true), chunk: AtomicUsize::new(64 << 10) });
        reader(ctl.try_clone().unwrap(), out.clone(), None);
        reader(data.try_clone().unwrap(), out, Some(gate.clone()));
        let mut b = Bench { rt, ctl: Some(ctl), data: Some(data), req: Some(req), ev, queue: VecDeque::new(), line_buf: vec![], line_cap: 100_000, lines: vec![], gate, next: 1, ptt: false };
        b.wait("the modem handle is built", |e| matches!(e, Ev::Ack(0) | Ev::Done(0, _))).and_then(|e| match e {
            Ev::Done(_, Err(m)) => Err(m),
            _ => Ok(()),
        })?;
        Ok(b)
    }

    pub fn slot(&mut self) -> u32 {
        self.next += 1;
        self.next
    }

    pub fn request(&mut self, r: Req) {
        if let Some(q) = &self.req {
            let _ = q.send(r);
        }
    }

    pub fn check_panics(&self) -> Result<(), String> {
        match self.rt.panics().first() {
            Some(p) if p.contains("harness:") => Err(format!("{}: {}", INCONCLUSIVE, p)),
            Some(p) => Err(p.clone()),
            None => Ok(()),
        }
    }

    /// Receives one more event.
    fn pump(&mut self, what: &str) -> Result<(), String> {
        let p = Patience::new();
        let cpu = self.rt.cpu();
        loop {
            match self.ev.recv_timeout(Duration::from_millis(50)) {
                Ok(e) => {
                    self.queue.push_back(e);
                    return Ok(());
                }
                Err(RecvTimeoutError::Timeout) => {
                    self.check_panics()?;
                    let used = self.rt.cpu().saturating_sub(cpu);
                    if used > SPIN {
                        return Err(format!("busy loop: {:.1} s of CPU used without progress while waiting until {}", used.as_secs_f64(), what));
                    }
                    p.check(what)?;
                }
                Err(RecvTimeoutError::Disconnected) => {
                    self.check_panics()?;
                    return Err(format!("{}: client gone while waiting until {}", INCONCLUSIVE, what));
                }
            }
        }
    }

    /// Takes everything that has arrived, without waiting.
    pub fn drain(&mut self) {
        while let Ok(e) = self.ev.try_recv() {
            self.queue.push_back(e);
        }
    }

    pub fn wait(&mut self, what: &str, pred: impl Fn(&Ev) -> bool) -> Result<Ev, String> {
        self.drain();
        let mut seen = 0;
        loop {
            while seen < self.queue.len() {
                if pred(&self.queue[seen]) {
                    return Ok(self.queue.remove(seen).unwrap());
                }
                seen += 1;
            }
            self.pump(what)?;
        }
    }

    pub fn pending(&mut self, pred: impl Fn(&Ev) -> bool) -> Option<usize> {
        self.drain();
        self.queue.iter().position(pred)
    }

    /// The next line the modem receives; None when the control connection is closed.
    pub fn next_line(&mut self, what: &str) -> Result<Option<String>, String> {
        loop {
            if let Some(p) = self.line_buf.iter().position(|&b| b == b'\r') {
                let l: Vec<u8> = self.line_buf.drain(..=p).collect();
                let text = String::from_utf8_lossy(&l[..p]).into_owned();
                self.lines.push(text.clone());
                return Ok(Some(text));
            }
            if self.lines.len() > 5000 || self.line_buf.len() > self.line_cap {
                return Err("the modem is flooded with commands".into());
            }
            match self.wait(what, |e| matches!(e, Ev::Ctl(_) | Ev::CtlEnd))? {
                Ev::Ctl(b) => self.line_buf.extend_from_slice(&b),
                _ => {
                    if !self.line_buf.is_empty() {
                        return Err(format!("control connection closed inside a command: {}", hex(&self.line_buf)));
                    }
                    self.queue.push_front(Ev::CtlEnd);
                    return Ok(None);
                }
            }
        }
    }

    /// True if a command line (or part of one) has arrived that was not taken yet.
    pub fn line_waiting(&mut self) -> bool {
        !self.line_buf.is_empty() || self.pending(|e| matches!(e, Ev::Ctl(_))).is_some()
    }

    pub fn expect_line(&mut self, want: &str) -> Result<(), String> {
        match self.next_line(&format!("the modem receives {:?}", want))? {
            Some(l) if l == want => Ok(()),
            Some(l) => Err(format!("the modem received {:?}, expected {:?}", l, want)),
            None => Err(format!("control connection closed, expected {:?}", want)),
        }
    }

    pub fn ctl_closed(&mut self) -> bool {
        self.pending(|e| matches!(e, Ev::CtlEnd)).is_some()
    }

    pub fn send(&mut self, bytes: &[u8], c: &Cuts) {
        if let Some(s) = &mut self.ctl {
            let _ = send_cut(s, bytes, c);
        }
    }

    pub fn say(&mut self, line: &str) {
        let v = format!("{}\r", line);
        self.send(v.as_bytes(), &Cuts::default())
    }

    pub fn call(&mut self, c: Cmd) -> u32 {
        let s = self.slot();
        self.request(Req::Call(s, c));
        s
    }

    pub fn done(&mut self, slot: u32, what: &str) -> Result<Result<(), String>, String> {
        match self.wait(what, |e| matches!(e, Ev::Done(s, _) if *s == slot))? {
            Ev::Done(_, r) => Ok(r),
            _ => unreachable!(),
        }
    }

    pub fn is_done(&mut self, slot: u32) -> bool {
        self.pending(|e| matches!(e, Ev::Done(s, _) if *s == slot)).is_some()
    }

    pub fn ack(&mut self, slot: u32, what: &str) -> Result<(), String> {
        match self.wait(what, |e| matches!(e, Ev::Ack(s) | Ev::PttLost(s) if *s == slot))? {
            Ev::Ack(_) => Ok(()),
            _ => Err(format!("status channel closed while waiting until {}", what)),
        }
    }

    pub fn ping(&mut self, what: &str) -> Result<(), String> {
        let s = self.slot();
        self.request(Req::Ping(s));
        self.ack(s, what)
    }

    /// Everything sent on the control port so far has been processed when this returns.
    pub fn ptt_sync(&mut self) -> Result<(), String> {
        self.ptt = !self.ptt;
        self.say(if self.ptt { "PTT ON" } else { "PTT OFF" });
        let s = self.slot();
        self.request(Req::Ptt(s, self.ptt));
        self.ack(s, "a transmit/receive request is reported")
    }

    pub fn status(&mut self, ids: &[String]) -> Result<Status, String> {
        let s = self.slot();
        self.request(Req::Status(s, ids.to_vec()));
        match self.wait("the status is read", |e| matches!(e, Ev::Status(x, _) if *x == s))? {
            Ev::Status(_, st) => Ok(st),
            _ => unreachable!(),
        }
    }

    pub fn link(&mut self, op: LinkOp) -> u32 {
        let s = self.slot();
        self.request(Req::Link(s, op));
        s
    }

    pub fn io(&mut self, slot: u32, what: &str) -> Result<IoRes<(Vec<u8>, usize)>, String> {
        match self.wait(what, |e| matches!(e, Ev::Io(s, _) if *s == slot))? {
            Ev::Io(_, r) => Ok(r),
            _ => unreachable!(),
        }
    }

    pub fn is_io_done(&mut self, slot: u32) -> bool {
        self.pending(|e| matches!(e, Ev::Io(s, _) if *s == slot)).is_some()
    }

    /// Establishes a link; the modem accepts at once.
    pub fn establish(&mut self, mine: &str, theirs: &str) -> Result<(), String> {
        self.establish_after(mine, theirs, &[])
    }

    /// Commands of `spare` may come before the connection request.
    pub fn establish_after(&mut self, mine: &str, theirs: &str, spare: &[&str]) -> Result<(), String> {
        let s = self.slot();
        self.request(Req::Connect(s, mine.into(), theirs.into()));
        let mut spare = spare.to_vec();
        let want = format!("CONNECT {} {}", mine, theirs);
        loop {
            match self.next_line(&format!("the modem receives {:?}", want))? {
                Some(l) if l == want => break,
                Some(l) if spare.contains(&l.as_str()) => {
                    self.say("OK");
                    spare.remove(spare.iter().position(|x| *x == l).unwrap());
                }
                Some(l) => return Err(format!("the modem received {:?}, expected {:?}", l, want)),
                None => return Err(format!("control connection closed, expected {:?}", want)),
            }
        }
        self.say("OK");
        self.say(&format!("CONNECTED {} {}", mine, theirs));
        self.done(s, "connect returns")?.map_err(|e| format!("connect failed although the modem reported the connection: {}", e))
    }

    /// Sends on the data port and waits until the other end has it.
    pub fn deliver(&mut self, bytes: &[u8], c: &Cuts) -> Result<(), String> {
        let Some(s) = &mut self.data else { return Ok(()) };
        if let Err(e) = send_cut(s, bytes, c) {
            return Err(format!("the data connection broke: {}", e));
        }
        let p = Patience::new();
        while outq(self.data.as_ref().unwrap()) > 0 {
            p.check("data is delivered")?;
            std::thread::sleep(Duration::from_micros(50));
        }
        Ok(())
    }

    /// Takes back that the end of the data connection was seen.
    pub fn queue_data_end(&mut self) {
        self.queue.push_back(Ev::DataEnd);
    }

    /// Drops the handle, answering every further command, and checks that both connections close.
    pub fn finish(&mut self) -> Result<(), String> {
        let s = self.slot();
        self.request(Req::DropTnc(s));
        self.ack(s, "the modem handle is dropped")?;
        while let Some(_) = self.next_line("the control connection is closed after the handle was dropped")? {
            self.say("OK");
        }
        self.gate.open.store(true, Ordering::Relaxed);
        self.wait("the data connection is closed after the handle was dropped", |e| matches!(e, Ev::DataEnd))?;
        self.check_panics()
    }

    /// Bytes received on the data port so far, waiting until there are `n`.
    pub fn data_in(&mut self, n: usize) -> Result<Vec<u8>, String> {
        let mut all = vec![];
        while all.len() < n {
            match self.wait("data arrives at the modem", |e| matches!(e, Ev::Data(_) | Ev::DataEnd))? {
                Ev::Data(d) => all.extend_from_slice(&d),
                _ => return Err(format!("data connection closed after {} of {} bytes", all.len(), n)),
            }
        }
        Ok(all)
    }
}

impl Drop for Bench {
    fn drop(&mut self) {
        self.req = None;
        self.gate.open.store(true, Ordering::Relaxed);
        for s in [&self.ctl, &self.data].into_iter().flatten() {
            let _ = s.shutdown(Shutdown::Both);
        }
    }
}

// ---- generators ----

/// Callsigns within the syntax shared by status lines and station identities.
pub fn callsign() -> impl Strategy<Value = String> {
    prop_oneof![
        6 => "[A-Z]{1,2}[0-9][A-Z]{1,3}",
        1 => "[0-9][A-Z]{1,2}[0-9][A-Z0-9]{0,1}[A-Z]".prop_filter("form", |s| StationId::new(s.as_str()).is_ok()),
        2 => "[A-Z]{1,2}[0-9][A-Z]{1,3}-[A-Z0-9]{1,2}",
        1 => "[A-Z]{3}[0-9]{2}[A-Z][A-Z0-9]",
        1 => "[A-Z][0-9][A-Z]",
    ]
}
