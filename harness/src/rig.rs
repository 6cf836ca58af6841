//! R01, R02: the rig manager over an in-memory stream that is scheduled by the case.
use crate::engine::*;
use crate::logs;
use plusendi::rig::elecraft::kx3::{manage_rig_thread, Command, TransmitState};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use tokio::sync::mpsc;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Step {
    /// Commands submitted at once; true: transmit.
    Cmds(Vec<bool>),
    /// The rig sends this.
    Rig(Vec<u8>),
    /// The rig takes this many more bytes only.
    Allow(u8),
    /// The rig takes everything again.
    Open,
    /// Commands queued while the rig talks without a pause.
    Chatter(Vec<bool>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum End {
    /// The command side is closed.
    Close,
    /// The command side is closed while the rig talks without a pause.
    CloseInChatter,
    Eof,
    ReadError(u8),
    /// Writing fails after this many more bytes.
    WriteError(u8, u8),
    /// The rig takes no more bytes after these: write returns 0.
    WriteZero(u8),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
struct Case {
    verbose: bool,
    queue: u8,
    read_at: Vec<u8>,
    write_at: Vec<u8>,
    /// Every so many stream operations return Pending once before they go ahead.
    lazy: u8,
    /// Steps are applied without letting the manager run in between, in groups of this size.
    group: u8,
    steps: Vec<Step>,
    end: End,
}

const KINDS: [io::ErrorKind; 6] = [io::ErrorKind::BrokenPipe, io::ErrorKind::Other, io::ErrorKind::TimedOut, io::ErrorKind::NotConnected, io::ErrorKind::UnexpectedEof, io::ErrorKind::InvalidData];
const CHATTER: &[u8] = b"IF00014060000 +0000;;\xff\x80;";
/// Stream operations without any effect before the manager counts as spinning.
const SPIN: u32 = 20_000;

#[derive(Default)]
struct Wire {
    input: VecDeque<u8>,
    chatter: bool,
    eof: bool,
    read_error: Option<io::ErrorKind>,
    write_error: Option<io::ErrorKind>,
    write_zero: bool,
    /// Bytes the rig still takes; None: any number.
    budget: Option<usize>,
    output: Vec<u8>,
    read_at: Vec<u8>,
    write_at: Vec<u8>,
    reads: usize,
    writes: usize,
    lazy: u8,
    ops: u32,
    rest: bool,
    reader: Option<Waker>,
    writer: Option<Waker>,
    /// Stream operations since the last effect.
    idle: u32,
    faults: u32,
}

impl Wire {
    /// Now and then an operation is not ready at once.
    fn not_yet(&mut self, cx: &mut Context<'_>) -> bool {
        self.ops += 1;
        if self.lazy > 0 && self.ops % (self.lazy as u32 + 1) == 0 && !self.rest {
            self.rest = true;
            cx.waker().wake_by_ref();
            return true;
        }
        self.rest = false;
        false
    }
    fn spinning(&mut self, what: &str) {
        self.idle += 1;
        if self.idle > SPIN {
            panic!("the rig manager spins: {}", what);
        }
    }
    fn wake(&mut self) {
        for w in [self.reader.take(), self.writer.take()].into_iter().flatten() {
            w.wake()
        }
    }
}

struct Mock(Arc<Mutex<Wire>>);

impl AsyncRead for Mock {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut w = self.0.lock().unwrap();
        if w.not_yet(cx) {
            return Poll::Pending;
        }
        let frag = w.read_at[w.reads % w.read_at.len()].max(1) as usize;
        let mut n = frag.min(buf.remaining());
        if n == 0 {
            w.spinning("reads into an empty buffer");
            return Poll::Ready(Ok(()));
        }
        if w.chatter {
            w.spinning("commands are not obeyed while the rig keeps sending");
            w.reads += 1;
            for i in 0..n {
                buf.put_slice(&[CHATTER[(w.reads * 7 + i) % CHATTER.len()]]);
            }
            return Poll::Ready(Ok(()));
        }
        if w.input.is_empty() {
            if let Some(kind) = w.read_error {
                w.faults += 1;
                w.spinning("after a read error");
                return Poll::Ready(Err(kind.into()));
            }
            if w.eof {
                w.faults += 1;
                w.spinning("after the end of the rig's stream");
                return Poll::Ready(Ok(()));
            }
            w.reader = Some(cx.waker().clone());
            return Poll::Pending;
        }
        n = n.min(w.input.len());
        w.reads += 1;
        w.idle = 0;
        for _ in 0..n {
            let b = w.input.pop_front().unwrap();
            buf.put_slice(&[b]);
        }
        Poll::Ready(Ok(()))
    }
}

impl AsyncWrite for Mock {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut w = self.0.lock().unwrap();
        if w.not_yet(cx) {
            return Poll::Pending;
        }
        if buf.is_empty() {
            w.spinning("writes of nothing");
            return Poll::Ready(Ok(0));
        }
        let frag = w.write_at[w.writes % w.write_at.len()].max(1) as usize;
        let n = frag.min(buf.len()).min(w.budget.unwrap_or(usize::MAX));
        if n == 0 {
            if let Some(kind) = w.write_error {
                w.faults += 1;
                w.spinning("after a write error");
                return Poll::Ready(Err(kind.into()));
            }
            if w.write_zero {
                w.faults += 1;
                w.spinning("after the rig stopped taking bytes");
                return Poll::Ready(Ok(0));
            }
            w.writer = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if let Some(b) = &mut w.budget {
            *b -= n
        }
        w.writes += 1;
        w.idle = 0;
        w.output.extend_from_slice(&buf[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if self.0.lock().unwrap().not_yet(cx) {
            return Poll::Pending;
        }
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

struct Flag(AtomicBool);
impl std::task::Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}

struct Driver {
    wire: Arc<Mutex<Wire>>,
    future: Pin<Box<dyn Future<Output = color_eyre::Result<()>>>>,
    flag: Arc<Flag>,
    tx: Option<mpsc::Sender<Command>>,
    waiting: VecDeque<bool>,
    expected: Vec<u8>,
    result: Option<Result<(), String>>,
    verbose: bool,
}

impl Driver {
    fn new(c: &Case) -> Driver {
        let wire = Arc::new(Mutex::new(Wire { read_at: c.read_at.clone(), write_at: c.write_at.clone(), lazy: c.lazy, ..Wire::default() }));
        let (tx, rx) = mpsc::channel(c.queue.max(1) as usize);
        let stream = Mock(wire.clone());
        let future = Box::pin(logs::with_logging(c.verbose, || manage_rig_thread(rx, stream)));
        Driver { wire, future, flag: Arc::new(Flag(AtomicBool::new(true))), tx: Some(tx), waiting: VecDeque::new(), expected: vec![], result: None, verbose: c.verbose }
    }
    fn submit(&mut self, cmds: &[bool]) {
        for t in cmds {
            self.waiting.push_back(*t);
            self.expected.extend_from_slice(if *t { b"TX;" } else { b"RX;" });
        }
        self.offer();
    }
    /// Puts as many waiting commands into the queue as it takes.
    fn offer(&mut self) -> bool {
        let mut any = false;
        while let (Some(t), Some(tx)) = (self.waiting.front(), &self.tx) {
            let state = if *t { TransmitState::Transmit } else { TransmitState::Receive };
            if tx.try_send(Command::SetTransmitState(state)).is_err() {
                break;
            }
            self.waiting.pop_front();
            any = true;
        }
        any
    }
    /// Polls the manager until it has nothing more to do.
    fn settle(&mut self) -> Result<(), String> {
        let mut polls = 0;
        loop {
            if self.result.is_some() {
                return Ok(());
            }
            let woken = self.flag.0.swap(false, Ordering::SeqCst);
            if !woken {
                if self.offer() {
                    // the queue wakes the manager
                    if !self.flag.0.load(Ordering::SeqCst) {
                        return Err("the manager was not woken for a new command".into());
                    }
                    continue;
                }
                return Ok(());
            }
            polls += 1;
            if polls > 200_000 {
                return Err("the manager keeps waking itself".into());
            }
            let waker = Waker::from(self.flag.clone());
            let future = &mut self.future;
            if let Poll::Ready(r) = logs::with_logging(self.verbose, || future.as_mut().poll(&mut Context::from_waker(&waker))) {
                self.result = Some(r.map_err(|e| format!("{:#}", e)));
            }
            self.offer();
        }
    }
    fn check(&self) -> Result<(), String> {
        let w = self.wire.lock().unwrap();
        if !self.expected.starts_with(&w.output) {
            return Err(format!("the rig received {:?}, submitted were {:?}", String::from_utf8_lossy(&w.output), String::from_utf8_lossy(&self.expected)));
        }
        if w.budget.is_none() && w.output.len() < self.expected.len() {
            return Err(format!("the rig received only {:?} of {:?}{}", String::from_utf8_lossy(&w.output), String::from_utf8_lossy(&self.expected), match &self.result {
                Some(r) => format!("; the manager ended: {:?}", r),
                None => String::new(),
            }));
        }
        Ok(())
    }
    fn alive(&self, when: &str) -> Result<(), String> {
        match &self.result {
            Some(r) => Err(format!("the manager ended {}: {:?}", when, r)),
            None => Ok(()),
        }
    }
}

fn rig(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let mut d = Driver::new(c);
    let bad = c.steps.iter().any(|s| matches!(s, Step::Rig(b) if std::str::from_utf8(b).is_err()));
    let empty = c.steps.iter().any(|s| matches!(s, Step::Rig(b) if b.windows(2).any(|w| w == b";;") || b.first() == Some(&b';')));
    obs.label_if(bad, "rig sends non-text bytes");
    obs.label_if(empty, "rig sends an empty response");
    obs.label_if(c.verbose, "all logging on");
    let cmds: usize = c.steps.iter().map(|s| match s { Step::Cmds(v) | Step::Chatter(v) => v.len(), _ => 0 }).sum();
    let talk = c.steps.iter().any(|s| matches!(s, Step::Rig(b) if !b.is_empty()) || matches!(s, Step::Chatter(_)));
    obs.label_if(cmds > 3, "more than three commands");
    obs.nontrivial_if(cmds > 0 && talk || !matches!(c.end, End::Close | End::CloseInChatter));
    d.settle()?;
    d.alive("at once")?;
    for (i, s) in c.steps.iter().enumerate() {
        match s {
            Step::Cmds(v) => d.submit(v),
            Step::Rig(b) => {
                let mut w = d.wire.lock().unwrap();
                w.input.extend(b.iter());
                w.wake();
            }
            Step::Allow(n) => d.wire.lock().unwrap().budget = Some(*n as usize),
            Step::Open => {
                let mut w = d.wire.lock().unwrap();
                w.budget = None;
                w.wake();
            }
            Step::Chatter(v) => {
                obs.label("commands while the rig keeps talking");
                d.settle()?;
                {
                    let mut w = d.wire.lock().unwrap();
                    w.budget = None;
                    w.wake();
                }
                d.settle()?;
                d.check()?;
                chatter(&mut d, v, false)?;
            }
        }
        if let Step::Allow(_) = s {
            let mut w = d.wire.lock().unwrap();
            w.wake();
            if w.output.len() < d.expected.len() {
                obs.label("rig input held up in mid-command");
            }
        }
        if (i + 1) % c.group.max(1) as usize == 0 {
            d.settle()?;
            d.alive(&format!("after {:?}", s))?;
            d.check()?;
        }
    }
    d.settle()?;
    d.alive("before its streams did")?;
    d.check()?;
    match c.end {
        End::Close => {
            obs.label("command side closed");
            // everything that is waiting can be queued first, then the sender goes away
            loop {
                d.settle()?;
                if d.waiting.is_empty() {
                    break;
                }
                let mut w = d.wire.lock().unwrap();
                w.budget = None;
                w.wake();
            }
            if d.wire.lock().unwrap().output.len() < d.expected.len() {
                obs.label("command side closed with commands outstanding");
            }
            d.tx = None;
            d.settle()?;
            {
                let mut w = d.wire.lock().unwrap();
                w.budget = None;
                w.wake();
            }
            d.settle()?;
            d.check()?;
            match &d.result {
                Some(Ok(())) => Ok(()),
                Some(Err(e)) => Err(format!("the command side was closed, the manager failed: {}", e)),
                None => Err("the command side was closed, the manager does not end".into()),
            }
        }
        End::CloseInChatter => {
            obs.label("command side closed while the rig keeps talking");
            {
                let mut w = d.wire.lock().unwrap();
                w.budget = None;
                w.wake();
            }
            d.settle()?;
            d.check()?;
            chatter(&mut d, &[true, false], true)?;
            match &d.result {
                Some(Ok(())) => Ok(()),
                x => Err(format!("the command side was closed, the manager's result is {:?}", x)),
            }
        }
        End::Eof | End::ReadError(_) => {
            {
                let mut w = d.wire.lock().unwrap();
                if let End::ReadError(k) = c.end {
                    obs.label("read error");
                    w.read_error = Some(KINDS[k as usize % KINDS.len()]);
                } else {
                    obs.label("end of the rig's stream");
                    w.eof = true;
                }
                w.wake();
            }
            d.settle()?;
            // a write held up by the rig may keep the manager from noticing
            {
                let mut w = d.wire.lock().unwrap();
                w.budget = None;
                w.wake();
            }
            failed(&mut d)
        }
        End::WriteError(_, n) | End::WriteZero(n) => {
            d.settle()?;
            {
                let mut w = d.wire.lock().unwrap();
                if let End::WriteError(k, _) = c.end {
                    obs.label("write error");
                    w.write_error = Some(KINDS[k as usize % KINDS.len()]);
                } else {
                    obs.label("write takes nothing");
                    w.write_zero = true;
                }
                w.budget = Some(n as usize);
                w.wake();
            }
            let more: Vec<bool> = (0..=(n / 3 + 1)).map(|i| i % 3 != 1).collect();
            d.submit(&more);
            failed(&mut d)
        }
    }
}

/// Commands are obeyed (and the end of the command side noticed) while every read is ready.
fn chatter(d: &mut Driver, cmds: &[bool], close: bool) -> Result<(), String> {
    {
        let mut w = d.wire.lock().unwrap();
        w.idle = 0;
        w.wake();
    }
    d.submit(cmds);
    // the manager runs inside one poll while reads are ready: end the chatter from the outside
    // only between polls, so let the output decide
    let want = d.expected.len();
    let wire = d.wire.clone();
    wire.lock().unwrap().chatter = true;
    let waker = Waker::from(d.flag.clone());
    let mut polls = 0;
    while d.result.is_none() {
        let done = d.waiting.is_empty() && d.wire.lock().unwrap().output.len() >= want;
        if done && !close {
            break;
        }
        if done {
            d.tx = None;
        }
        polls += 1;
        if polls > 1_000_000 {
            return Err("commands are not obeyed while the rig keeps sending".into());
        }
        // reads return Pending now and then so that a poll ends
        let stop_after = d.wire.lock().unwrap().lazy == 0;
        if stop_after {
            d.wire.lock().unwrap().lazy = 50;
        }
        let future = &mut d.future;
        if let Poll::Ready(r) = logs::with_logging(d.verbose, || future.as_mut().poll(&mut Context::from_waker(&waker))) {
            d.result = Some(r.map_err(|e| format!("{:#}", e)));
        }
        d.offer();
    }
    let mut w = wire.lock().unwrap();
    w.chatter = false;
    w.idle = 0;
    w.wake();
    drop(w);
    d.flag.0.store(true, Ordering::SeqCst);
    if !close {
        d.settle()?;
        d.alive("while the rig was sending")?;
    }
    d.check()
}

/// The manager has to end with an error, having sent nothing wrong.
fn failed(d: &mut Driver) -> Result<(), String> {
    d.settle()?;
    let w = d.wire.lock().unwrap();
    if !d.expected.starts_with(&w.output) {
        return Err(format!("the rig received {:?}, submitted were {:?}", String::from_utf8_lossy(&w.output), String::from_utf8_lossy(&d.expected)));
    }
    match &d.result {
        Some(Err(_)) => Ok(()),
        Some(Ok(())) => Err("the rig's stream failed, the manager ended successfully".into()),
        None if w.faults > 0 => Err("the rig's stream failed, the manager carries on".into()),
        None => Err("the rig's stream failed, the manager does not look".into()),
    }
}

fn rig_text() -> impl Strategy<Value = Vec<u8>> {
    let piece = prop_oneof![
        3 => prop::sample::select(vec!["ID017;", "IF00014060000     +00000000 0002000001 ;", "TX;", "RX;", "FA00014060000;", "?;", ";", ";;", "K31;", "DS@@@A   af;"]).prop_map(|s| s.as_bytes().to_vec()),
        1 => prop::collection::vec(any::<u8>(), 0..12),
        1 => prop::collection::vec(prop::sample::select(vec![b';', b'T', 0xff, 0x80, 0xc3, b'\r', 0]), 0..8),
        1 => "[A-Z0-9 ]{0,40}".prop_map(|s| s.into_bytes()),
        1 => (prop::sample::select(vec![b'A', b';', 0xe2u8, b' ']), 50usize..400).prop_map(|(b, n)| vec![b; n]),
    ];
    prop::collection::vec(piece, 1..5).prop_map(|v| v.concat())
}

fn steps() -> impl Strategy<Value = Vec<Step>> {
    let cmds = || prop::collection::vec(any::<bool>(), 1..6);
    let step = prop_oneof![
        5 => cmds().prop_map(Step::Cmds),
        5 => rig_text().prop_map(Step::Rig),
        2 => (0u8..8).prop_map(Step::Allow),
        2 => Just(Step::Open),
        1 => cmds().prop_map(Step::Chatter),
        1 => prop::collection::vec(any::<bool>(), 6..40).prop_map(Step::Cmds),
    ];
    let rare = prop_oneof![
        1 => prop::collection::vec(any::<bool>(), 40..600).prop_map(Step::Cmds),
        1 => (prop::sample::select(vec![b'A', b';', 0xffu8, b' ']), 400usize..6_000).prop_map(|(b, n)| Step::Rig(vec![b; n])),
    ];
    let step = prop_oneof![150 => step, 1 => rare];
    prop_oneof![12 => prop::collection::vec(step.clone(), 0..10), 1 => prop::collection::vec(step, 10..80)]
}

fn frags() -> impl Strategy<Value = Vec<u8>> {
    prop_oneof![
        2 => Just(vec![255u8]),
        1 => Just(vec![1u8]),
        3 => prop::collection::vec(1u8..9, 1..5),
        1 => prop::collection::vec(1u8..200, 1..4),
    ]
}

fn case(end: impl Strategy<Value = End>) -> impl Strategy<Value = Case> {
    (prop::bool::weighted(0.4), prop_oneof![2 => Just(1u8), 1 => 1u8..40], frags(), frags(), prop_oneof![2 => Just(0u8), 2 => 0u8..6], prop_oneof![3 => Just(1u8), 1 => 1u8..5], steps(), end)
        .prop_map(|(verbose, queue, read_at, write_at, lazy, group, steps, end)| Case { verbose, queue, read_at, write_at, lazy, group, steps, end })
}

/// Unfinished rig responses of thousands of bytes.
fn long_case() -> impl Strategy<Value = Case> {
    let long = (prop::sample::select(vec![b'A', b';', 0xffu8, b' ', 0xe2]), 12u32..16, any::<u16>(), 0u8..4).prop_map(|(b, bits, low, tail)| {
        let mut v = vec![b; (1usize << bits) + (low as usize & ((1 << bits) - 1))];
        v.extend_from_slice([&b""[..], b";", b";;ID017;", b";ID0"][tail as usize]);
        Step::Rig(v)
    });
    let step = prop_oneof![
        3 => long,
        1 => rig_text().prop_map(Step::Rig),
        3 => prop::collection::vec(any::<bool>(), 1..6).prop_map(Step::Cmds),
    ];
    let end = prop_oneof![3 => Just(End::Close), 1 => Just(End::Eof), 1 => any::<u8>().prop_map(End::ReadError), 1 => (any::<u8>(), 0u8..10).prop_map(|(k, n)| End::WriteError(k, n))];
    (prop::bool::weighted(0.2), 1u8..9, prop_oneof![Just(vec![255u8]), Just(vec![200, 64])], frags(), 0u8..2, prop::collection::vec(step, 2..8), end)
        .prop_map(|(verbose, queue, read_at, write_at, lazy, steps, end)| Case { verbose, queue, read_at, write_at, lazy, group: 1, steps, end })
}

const STREAM: &str = "an in-memory stream stands in for the serial port; it passes on written bytes without a flush, as a serial port does";

pub fn r01(ctx: &Ctx) {
    ctx.rule("Histories of commands, rig output of any bytes, held-up writes and constant rig output over a stream that fragments and delays reads and writes, ended by closing the command side; non-trivial = at least one command and some rig output.");
    ctx.assume(STREAM);
    ctx.run("histories", ctx.scale(120_000, 40), || case(prop_oneof![3 => Just(End::Close), 1 => Just(End::CloseInChatter)]), rig);
}

pub fn r02(ctx: &Ctx) {
    ctx.rule("Rig output of any bytes with and without logging, then end of stream, a read error or a write failure at any point of a history; non-trivial = a fault, or commands together with rig output.");
    ctx.assume(STREAM);
    ctx.run("faults", ctx.scale(80_000, 40), || case(prop_oneof![
        3 => Just(End::Eof),
        2 => any::<u8>().prop_map(End::ReadError),
        3 => (any::<u8>(), 0u8..10).prop_map(|(k, n)| End::WriteError(k, n)),
        1 => (0u8..10).prop_map(End::WriteZero),
    ]), rig);
    ctx.run("input", ctx.scale(30_000, 40), || case(Just(End::Close)), rig);
    ctx.run("long input", ctx.scale(300, 20), long_case, rig);
}
