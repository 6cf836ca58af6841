//! Checks of the VARA modem driver against a fake modem (V01-V11).
use crate::bench::*;
use crate::engine::{hex, Ctx, Obs, Sm, INCONCLUSIVE};
use plusendi::modem::vara::*;
use plusendi::StationId;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::io::ErrorKind;
use std::net::{Shutdown, TcpListener};
use std::num::NonZeroU16;
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

fn cmd() -> impl Strategy<Value = Cmd> {
    let calls = prop_oneof![12 => prop::collection::vec(callsign(), 1..6), 4 => prop::collection::vec(callsign(), 6..24), 1 => prop::collection::vec(callsign(), 24..300)];
    prop_oneof![
        3 => calls.prop_map(Cmd::MyCall),
        2 => (0u8..3).prop_map(Cmd::Compression),
        2 => (0u8..3).prop_map(Cmd::Bandwidth),
        1 => Just(Cmd::Disconnect),
        1 => Just(Cmd::Abort),
    ]
}

// ---- V01 ----

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Path {
    Direct,
    One(String),
    Two(String, String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum AnyCmd {
    Plain(Cmd),
    Listen(u8),
    Connect(String, String, Path),
}

fn any_cmd() -> impl Strategy<Value = AnyCmd> {
    // from a small pool too, so that stations coincide; identities have no longest length
    let callsign = || prop_oneof![4 => callsign(), 3 => prop::sample::select(&REGS[..3]).prop_map(String::from), 1 => long_callsign()];
    let path = prop_oneof![1 => Just(Path::Direct), 2 => callsign().prop_map(Path::One), 2 => (callsign(), callsign()).prop_map(|(a, b)| Path::Two(a, b))];
    prop_oneof![
        3 => cmd().prop_map(AnyCmd::Plain),
        1 => (0u8..3).prop_map(AnyCmd::Listen),
        4 => (callsign(), callsign(), path).prop_map(|(a, b, p)| AnyCmd::Connect(a, b, p)),
    ]
}

/// Identities far longer than real callsigns.
fn long_callsign() -> impl Strategy<Value = String> {
    "[0-9]?[A-Z]{1,30}[0-9]{1,20}[A-Z][A-Z0-9]{0,40}(-[A-Z0-9]{1,2})?"
}

fn v01_text(c: &AnyCmd, o: &mut Obs) -> Result<(), String> {
    let id = |s: &String| StationId::new(s.as_str()).map_err(|_| format!("{}: callsign {} refused", INCONCLUSIVE, s));
    let (got, want) = match c {
        AnyCmd::Plain(p) => {
            let cmd = match p {
                Cmd::MyCall(v) => {
                    let mut ids = vec![];
                    for s in v {
                        ids.push(id(s)?);
                    }
                    let first = ids.remove(0);
                    Command::SetCall(MyCallSigns(first, ids))
                }
                Cmd::Compression(i) => Command::SetCompression([CompressionMode::Off, CompressionMode::Text, CompressionMode::Files][*i as usize]),
                Cmd::Bandwidth(i) => Command::SetBandwidth([BandwidthMode::Narrow, BandwidthMode::Wide, BandwidthMode::Tactical][*i as usize]),
                Cmd::Disconnect => Command::Disconnect,
                Cmd::Abort => Command::Abort,
            };
            (cmd.to_string(), render(p))
        }
        AnyCmd::Listen(i) => (
            Command::Listen([ListenMode::Disable, ListenMode::CQ, ListenMode::Enable][*i as usize]).to_string(),
            format!("LISTEN {}", ["OFF", "CQ", "ON"][*i as usize]),
        ),
        AnyCmd::Connect(a, b, p) => {
            let (path, tail) = match p {
                Path::Direct => (ConnectPath::Direct, String::new()),
                Path::One(d) => (ConnectPath::OneHop { digipeater: id(d)? }, format!(" via {}", d)),
                Path::Two(d, e) => (ConnectPath::TwoHops { first: id(d)?, second: id(e)? }, format!(" via {} {}", d, e)),
            };
            o.nontrivial_if(!tail.is_empty());
            o.label_if(a == b, "source and target the same");
            o.label_if(matches!(p, Path::Two(d, e) if d == e), "the same digipeater twice");
            (Command::Connect(ConnectCommand { origin: id(a)?, target: id(b)?, path }).to_string(), format!("CONNECT {} {}{}", a, b, tail))
        }
    };
    o.nontrivial_if(matches!(c, AnyCmd::Plain(Cmd::MyCall(v)) if v.len() > 1));
    if got != want {
        return Err(format!("rendered as {:?}, expected {:?}", got, want));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct V01 {
    mode: Mode,
    cmds: Vec<(Cmd, bool)>,
    connect: Option<(String, String)>,
}

fn v01_wire(c: &V01, o: &mut Obs) -> Result<(), String> {
    let mut b = Bench::start(c.mode)?;
    o.nontrivial_if(c.cmds.len() > 1);
    for (cmd, ok) in &c.cmds {
        let s = b.call(cmd.clone());
        b.expect_line(&render(cmd))?;
        b.say(if *ok { "OK" } else { "WRONG" });
        let r = b.done(s, "the call returns")?;
        if r.is_ok() != *ok {
            return Err(format!("{} answered {} but the call returned {:?}", render(cmd), if *ok { "OK" } else { "WRONG" }, r));
        }
    }
    if let Some((x, y)) = &c.connect {
        let s = b.slot();
        b.request(Req::Connect(s, x.clone(), y.clone()));
        b.expect_line(&format!("CONNECT {} {}", x, y))?;
        b.say("WRONG");
        if b.done(s, "connect returns")?.is_ok() {
            return Err("connect refused by the modem succeeded".into());
        }
    }
    let n = b.lines.len();
    b.finish()?;
    if b.lines.len() > n {
        return Err(format!("the modem received {:?} which no call asked for", &b.lines[n..]));
    }
    Ok(())
}

/// A list too long for the system's send buffer, while the modem does not read.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct V01Long {
    multi: bool,
    calls: u32,
    width: u8,
}

fn v01_long(c: &V01Long, o: &mut Obs) -> Result<(), String> {
    let mut b = Bench::start(Mode { multi: c.multi, verbose: false })?;
    b.line_cap = 64 << 20;
    o.nontrivial_if(true);
    let one = |i: u32| format!("K{}{}", i, "ABCDEFGHIJKLMNOP".chars().cycle().take(c.width.max(1) as usize).collect::<String>());
    let cmd = Cmd::MyCall((0..c.calls).map(one).collect());
    let s = b.call(cmd.clone());
    let want = render(&cmd);
    match b.next_line("the modem receives the long list")? {
        Some(l) if l == want => {}
        Some(l) => {
            let at = l.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
            return Err(format!("the modem received a line of {} characters instead of {}, different from character {} on", l.len(), want.len(), at));
        }
        None => return Err("the control connection was closed".into()),
    }
    b.say("OK");
    if b.done(s, "the call returns")?.is_err() {
        return Err("a call answered OK failed".into());
    }
    let s = b.call(Cmd::Bandwidth(1));
    b.expect_line("BW2300")?;
    b.say("WRONG");
    if b.done(s, "the call returns")?.is_ok() {
        return Err("a call answered WRONG succeeded".into());
    }
    let n = b.lines.len();
    b.finish()?;
    if b.lines.len() > n {
        return Err(format!("the modem received {} lines which no call asked for", b.lines.len() - n));
    }
    Ok(())
}

pub fn v01(ctx: &Ctx) {
    ctx.rule("Non-trivial: a connect command with digipeaters or a callsign list with alternates (rendering); more than one command on one handle (wire). Distinct commands or command sequences.");
    let long = [(1_000u32, 3u8), (30_000, 5), (400_000, 9)];
    ctx.each("long lists", long.iter().flat_map(|&(calls, width)| [false, true].map(|multi| V01Long { multi, calls, width })).collect(), v01_long);
    ctx.run("rendering", ctx.scale(100_000, 10), any_cmd, v01_text);
    ctx.run(
        "wire",
        ctx.scale(1200, 12),
        || (mode(), prop::collection::vec((cmd(), any::<bool>()), 0..6), prop::option::of((prop_oneof![3 => callsign(), 1 => long_callsign()], prop_oneof![3 => callsign(), 1 => Just("KC1GSL".to_string()), 1 => long_callsign()]))).prop_map(|(mode, cmds, connect)| V01 { mode, cmds, connect }),
        v01_wire,
    );
}

// ---- V02 ----

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Line {
    Alive,
    Buffer(u64),
    Busy(bool),
    Ptt(bool),
    Registered(String),
    Connected(String, String),
    Disconnected,
    Pending,
    CancelPending,
}

impl Line {
    fn text(&self) -> String {
        let oo = |b: &bool| if *b { "ON" } else { "OFF" };
        match self {
            Line::Alive => "IAMALIVE".into(),
            Line::Buffer(n) => format!("BUFFER {}", n),
            Line::Busy(b) => format!("BUSY {}", oo(b)),
            Line::Ptt(b) => format!("PTT {}", oo(b)),
            Line::Registered(c) => format!("REGISTERED {}", c),
            Line::Connected(a, b) => format!("CONNECTED {} {}", a, b),
            Line::Disconnected => "DISCONNECTED".into(),
            Line::Pending => "PENDING".into(),
            Line::CancelPending => "CANCELPENDING".into(),
        }
    }
}

const REGS: [&str; 6] = ["KC1GSL", "W1AW", "KC1GSL-7", "N0CALL", "AB1CD-T", "VE3XYZ"];

fn status_line() -> impl Strategy<Value = Line> {
    prop_oneof![
        2 => Just(Line::Alive),
        3 => prop_oneof![3 => 0u64..300, 3 => any::<u32>().prop_map(u64::from), 3 => Just(0u64), 1 => any::<u64>()].prop_map(Line::Buffer),
        3 => any::<bool>().prop_map(Line::Busy),
        3 => any::<bool>().prop_map(Line::Ptt),
        2 => prop::sample::select(&REGS[..]).prop_map(|s| Line::Registered(s.to_string())),
        1 => callsign().prop_map(Line::Registered),
    ]
}

fn any_line() -> impl Strategy<Value = Line> {
    prop_oneof![
        8 => status_line(),
        1 => (callsign(), callsign()).prop_map(|(a, b)| Line::Connected(a, b)),
        1 => Just(Line::Disconnected),
        1 => Just(Line::Pending),
        1 => Just(Line::CancelPending),
    ]
}

/// Status lines other than transmit/receive requests, which the harness uses to synchronise.
fn quiet_line() -> impl Strategy<Value = Line> {
    status_line().prop_map(|l| match l {
        Line::Ptt(b) => Line::Busy(b),
        l => l,
    })
}

fn noise() -> impl Strategy<Value = Vec<Line>> {
    prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(quiet_line(), 1..4)]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum V02Step {
    /// Status lines; the last bytes of the batch are held back until the next step.
    Lines { lines: Vec<Line>, cuts: Cuts, hold: u8 },
    /// A command call answered together with status lines before and after the reply.
    Call { cmd: Cmd, ok: bool, before: Vec<Line>, after: Vec<Line>, cuts: Cuts },
    /// Compare everything that is reported.
    Look,
    /// The same lines many times over, sent without a pause.
    Flood { lines: Vec<Line>, times: u16, segment: u16 },
    /// This many callsigns announced.
    Register { first: u16, n: u16 },
}

fn numbered_call(n: u16) -> String {
    let c = |k: u16| (b'A' + (k % 26) as u8) as char;
    format!("{}{}{}{}{}", c(n / 6760 + 10), n % 10, c(n / 10), c(n / 260), "Q")
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct V02 {
    mode: Mode,
    steps: Vec<V02Step>,
}

fn v02_case() -> impl Strategy<Value = V02> {
    let step = prop_oneof![
        4 => (prop::collection::vec(any_line(), 1..8), cuts(), prop_oneof![3 => Just(0u8), 2 => 0u8..12]).prop_map(|(lines, cuts, hold)| V02Step::Lines { lines, cuts, hold }),
        2 => (cmd(), any::<bool>(), prop::collection::vec(status_line(), 0..4), prop::collection::vec(status_line(), 0..4), cuts()).prop_map(|(cmd, ok, before, after, cuts)| V02Step::Call { cmd, ok, before, after, cuts }),
        3 => Just(V02Step::Look),
    ];
    let rare = prop_oneof![
        2 => (prop::collection::vec(any_line(), 1..20), 20u16..1000, prop_oneof![Just(0u16), 300u16..6000]).prop_map(|(lines, times, segment)| V02Step::Flood { lines, times, segment }),
        1 => (any::<u16>(), 20u16..400).prop_map(|(first, n)| V02Step::Register { first, n }),
    ];
    let step = prop_oneof![40 => step, 1 => rare];
    (mode(), prop_oneof![8 => prop::collection::vec(step.clone(), 1..10), 1 => prop::collection::vec(step, 10..60)]).prop_map(|(mode, steps)| V02 { mode, steps })
}

struct StatusModel {
    buffer: usize,
    busy: bool,
    tx: bool,
    registered: BTreeSet<String>,
    heartbeat: Instant,
    /// A heartbeat was sent since `heartbeat` was read; when the first of them was.
    beat_since: Option<Instant>,
}

impl StatusModel {
    fn new(start: &Status) -> Self {
        StatusModel { buffer: 0, busy: false, tx: false, registered: BTreeSet::new(), heartbeat: start.heartbeat, beat_since: None }
    }
    fn apply(&mut self, l: &Line) {
        match l {
            Line::Alive => self.beat_since = self.beat_since.or(Some(Instant::now())),
            Line::Buffer(n) => self.buffer = *n as usize,
            Line::Busy(b) => self.busy = *b,
            Line::Ptt(b) => self.tx = *b,
            Line::Registered(c) => {
                self.registered.insert(c.clone());
            }
            _ => {}
        }
    }
    fn differs(&self, s: &Status, ids: &[String]) -> Option<String> {
        if s.buffer != self.buffer {
            return Some(format!("buffer reported as {}, the modem's latest is {}", s.buffer, self.buffer));
        }
        if s.busy != self.busy {
            return Some(format!("busy reported as {}, the modem's latest is {}", s.busy, self.busy));
        }
        if s.tx != self.tx {
            return Some(format!("transmit request reported as {}, the modem's latest is {}", s.tx, self.tx));
        }
        for (i, r) in ids.iter().zip(&s.registered) {
            if *r != self.registered.contains(i) {
                return Some(format!("{} reported as registered: {}, announced by the modem: {}", i, r, !r));
            }
        }
        match self.beat_since {
            None if s.heartbeat != self.heartbeat => Some("heartbeat time moved without a heartbeat".into()),
            Some(t) if s.heartbeat < t => Some("a heartbeat did not move the heartbeat time".into()),
            _ if s.heartbeat > Instant::now() => Some("heartbeat time lies in the future".into()),
            _ => None,
        }
    }
}

/// The status is what the model says: now (everything sent has been processed), or before long.
fn look(b: &mut Bench, m: &mut StatusModel, ids: &[String], at_once: bool) -> Result<(), String> {
    let p = Patience::new();
    loop {
        let s = b.status(ids)?;
        match m.differs(&s, ids) {
            None => {
                // otherwise lines may still be on their way
                if at_once {
                    m.heartbeat = s.heartbeat;
                    m.beat_since = None;
                }
                return Ok(());
            }
            Some(d) => {
                if at_once {
                    return Err(d);
                }
                b.check_panics()?;
                p.check(&d)?;
                std::thread::sleep(Duration::from_micros(200));
            }
        }
    }
}

fn v02_check(c: &V02, o: &mut Obs) -> Result<(), String> {
    let mut b = Bench::start(c.mode)?;
    let mut ids: Vec<String> = REGS.iter().map(|s| s.to_string()).collect();
    for s in &c.steps {
        match s {
            V02Step::Lines { lines, .. } | V02Step::Flood { lines, .. } => {
                for l in lines {
                    if let Line::Registered(r) = l {
                        if !ids.contains(r) {
                            ids.push(r.clone());
                        }
                    }
                }
            }
            V02Step::Register { first, n } => {
                for i in 0..*n {
                    let r = numbered_call(first.wrapping_add(i));
                    if !ids.contains(&r) {
                        ids.push(r);
                    }
                }
            }
            _ => {}
        }
    }
    // and callsigns that are almost the ones announced
    let near = |r: &String| {
        let (base, ssid) = r.split_once('-').unwrap_or((r, ""));
        vec![
            base.to_string(),
            format!("{}-0", base),
            format!("{}-1", base),
            format!("{}-00", base),
            format!("{}-{}0", base, &ssid[..ssid.len().min(1)]),
            format!("{}X", base),
            base[..base.len() - 1].to_string(),
            base[1..].to_string(),
        ]
    };
    for n in ids.iter().take(40).flat_map(near).collect::<Vec<_>>() {
        if !ids.contains(&n) && plusendi::StationId::new(n.as_str()).is_ok() {
            ids.push(n);
        }
    }
    let start = b.status(&ids)?;
    let mut m = StatusModel::new(&start);
    if let Some(d) = m.differs(&start, &ids) {
        return Err(format!("before any line: {}", d));
    }
    // Bytes of the last line not sent yet, and the line they complete.
    let mut held: Vec<u8> = vec![];
    let mut held_line: Option<Line> = None;
    let mut looked = 0;
    let mut settled = true;
    for step in &c.steps {
        match step {
            V02Step::Lines { lines, cuts, hold } => {
                let mut bytes = std::mem::take(&mut held);
                if let Some(l) = held_line.take() {
                    m.apply(&l);
                }
                for (i, l) in lines.iter().enumerate() {
                    bytes.extend_from_slice(l.text().as_bytes());
                    bytes.push(b'\r');
                    if i + 1 < lines.len() || *hold == 0 {
                        m.apply(l);
                    }
                }
                if *hold > 0 {
                    let last = lines.last().unwrap().text().len() + 1;
                    let keep = (*hold as usize).min(last);
                    held = bytes.split_off(bytes.len() - keep);
                    held_line = lines.last().cloned();
                    o.label("line cut across steps");
                }
                o.label_if(!cuts.at.is_empty(), "segmented");
                b.send(&bytes, cuts);
                settled = false;
            }
            V02Step::Call { cmd, ok, before, after, cuts } => {
                let s = b.call(cmd.clone());
                b.expect_line(&render(cmd))?;
                let mut bytes = std::mem::take(&mut held);
                if let Some(l) = held_line.take() {
                    m.apply(&l);
                }
                if b.is_done(s) {
                    return Err("a command call returned although only status lines had been sent".into());
                }
                for l in before {
                    m.apply(l);
                    bytes.extend_from_slice(format!("{}\r", l.text()).as_bytes());
                }
                bytes.extend_from_slice(if *ok { b"OK\r" } else { b"WRONG\r" });
                for l in after {
                    m.apply(l);
                    bytes.extend_from_slice(format!("{}\r", l.text()).as_bytes());
                }
                b.send(&bytes, cuts);
                let r = b.done(s, "the call returns")?;
                if r.is_ok() != *ok {
                    return Err(format!("{} was answered {} but returned {:?}", render(cmd), if *ok { "OK" } else { "WRONG" }, r));
                }
                settled = after.is_empty();
            }
            V02Step::Flood { .. } | V02Step::Register { .. } => {
                let mut bytes = std::mem::take(&mut held);
                if let Some(l) = held_line.take() {
                    m.apply(&l);
                }
                let (lines, times, segment) = match step {
                    V02Step::Flood { lines, times, segment } => (lines.clone(), *times, *segment),
                    V02Step::Register { first, n } => ((0..*n).map(|i| Line::Registered(numbered_call(first.wrapping_add(i)))).collect(), 1, 0),
                    _ => unreachable!(),
                };
                for l in &lines {
                    m.apply(l);
                }
                let once: Vec<u8> = lines.iter().flat_map(|l| format!("{}\r", l.text()).into_bytes()).collect();
                for _ in 0..times {
                    bytes.extend_from_slice(&once);
                }
                o.label(if bytes.len() > 64 << 10 { "flood of more than 64 KiB" } else { "flood" });
                b.send(&bytes, &Cuts { at: if segment == 0 { vec![] } else { vec![segment] }, pause: 0 });
                settled = false;
            }
            V02Step::Look => {
                looked += 1;
                o.label_if(!held.is_empty(), "looked with an unfinished line");
                look(&mut b, &mut m, &ids, settled)?;
            }
        }
    }
    if !held.is_empty() {
        let bytes = std::mem::take(&mut held);
        m.apply(&held_line.take().unwrap());
        b.send(&bytes, &Cuts::default());
    }
    look(&mut b, &mut m, &ids, false)?;
    // a reply comes after all lines sent before it
    let s = b.call(Cmd::Bandwidth(2));
    b.expect_line("BW2750")?;
    b.say("OK");
    b.done(s, "the call returns")?.map_err(|e| format!("a call answered OK failed: {}", e))?;
    look(&mut b, &mut m, &ids, true)?;
    o.nontrivial_if(looked > 0 && c.steps.len() > 2);
    o.label_if(m.registered.iter().any(|r| r.contains('-')), "registered callsign with SSID");
    b.finish()
}

pub fn v02(ctx: &Ctx) {
    ctx.rule("Non-trivial: three or more steps (batches of status lines, calls) with at least one look at the reported status in between. Distinct histories.");
    ctx.assume("A heartbeat's reported time is compared with the clock of the same machine.");
    ctx.run("histories", ctx.scale(4000, 12), v02_case, v02_check);
}

// ---- V03 ----

#[derive(Clone, Debug, Serialize, Deserialize)]
enum V03Step {
    /// Calls issued at the same time.
    Calls(u8),
    /// One call of this kind.
    One(Cmd),
    /// Gives up the n-th unfinished call.
    Abandon(u8),
    /// A call given up at once.
    CallAndAbandon,
    /// Replies to the oldest outstanding commands, in one go, each with status lines before it.
    Reply(Vec<(bool, Vec<Line>)>, Cuts),
    /// A reply nothing asked for, while nothing is outstanding.
    Stray(bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct V03 {
    mode: Mode,
    steps: Vec<V03Step>,
    last: Vec<bool>,
    /// The modem answers so many of the last calls and closes its side in the same breath.
    bye: Option<u8>,
}

fn v03_case() -> impl Strategy<Value = V03> {
    let step = prop_oneof![
        16 => (1u8..4).prop_map(V03Step::Calls),
        1 => (20u8..90).prop_map(V03Step::Calls),
        8 => cmd().prop_map(V03Step::One),
        12 => any::<u8>().prop_map(V03Step::Abandon),
        4 => Just(V03Step::CallAndAbandon),
        19 => (prop::collection::vec((any::<bool>(), noise()), 1..5), cuts()).prop_map(|(r, c)| V03Step::Reply(r, c)),
        1 => (prop::collection::vec((any::<bool>(), noise()), 10..80), cuts()).prop_map(|(r, c)| V03Step::Reply(r, c)),
        4 => any::<bool>().prop_map(V03Step::Stray),
    ];
    (mode(), prop::collection::vec(step, 1..14), prop::collection::vec(any::<bool>(), 8), prop::option::weighted(0.4, 0u8..6)).prop_map(|(mode, steps, last, bye)| V03 { mode, steps, last, bye })
}

struct V03Run {
    b: Bench,
    /// Commands that arrived and are unanswered, oldest first.
    awaiting: VecDeque<u32>,
    abandoned: BTreeSet<u32>,
    /// Calls not finished and not given up.
    open: Vec<u32>,
    by_line: BTreeMap<String, u32>,
    n: u32,
}

impl V03Run {
    fn unique(&mut self) -> Cmd {
        self.n += 1;
        let n = self.n;
        Cmd::MyCall(vec![format!("K{}{}{}{}", n % 10, (b'A' + (n / 10 % 26) as u8) as char, (b'A' + (n / 260 % 26) as u8) as char, "X")])
    }
    fn issue(&mut self, c: Cmd) -> u32 {
        let text = render(&c);
        let s = self.b.call(c);
        self.by_line.insert(text, s);
        self.open.push(s);
        s
    }
    /// Takes command lines until the one of `slot` has come.
    fn arrive(&mut self, slot: u32) -> Result<(), String> {
        while !self.awaiting.contains(&slot) {
            match self.b.next_line("a command arrives at the modem")? {
                Some(l) => match self.by_line.remove(&l) {
                    Some(s) => self.awaiting.push_back(s),
                    None => return Err(format!("the modem received {:?} which no call asked for", l)),
                },
                None => return Err("control connection closed with calls outstanding".into()),
            }
        }
        Ok(())
    }
    fn reply(&mut self, replies: &[(bool, Vec<Line>)], cuts: &Cuts, o: &mut Obs) -> Result<(), String> {
        let mut bytes = vec![];
        let mut expect = vec![];
        for (ok, noise) in replies {
            let Some(s) = self.awaiting.pop_front() else { break };
            for l in noise {
                bytes.extend_from_slice(format!("{}\r", l.text()).as_bytes());
            }
            bytes.extend_from_slice(if *ok { b"OK\r" } else { b"WRONG\r" });
            expect.push((s, *ok));
        }
        o.label_if(expect.len() > 1, "batched replies");
        self.b.send(&bytes, cuts);
        for (s, ok) in expect {
            if self.abandoned.contains(&s) {
                o.label("reply to an abandoned call");
                continue;
            }
            let r = self.b.done(s, "a call returns after its reply")?;
            if r.is_ok() != ok {
                return Err(format!("a call answered {} returned {:?}", if ok { "OK" } else { "WRONG" }, r));
            }
            self.open.retain(|x| *x != s);
        }
        for s in self.open.clone() {
            if self.b.is_done(s) {
                return Err("a call returned before the modem answered it".into());
            }
        }
        Ok(())
    }
}

impl V03Run {
    fn farewell(mut self, n: usize, oks: &[bool], o: &mut Obs) -> Result<(), String> {
        if self.awaiting.is_empty() {
            for _ in 0..2 {
                let u = self.unique();
                let s = self.issue(u);
                self.arrive(s)?;
            }
        }
        let mut bytes = vec![];
        let mut expect = vec![];
        for (s, ok) in self.awaiting.drain(..).zip(oks.iter().cycle()).take(n) {
            bytes.extend_from_slice(if *ok { b"OK\r" } else { b"WRONG\r" });
            expect.push((s, *ok));
        }
        o.label_if(expect.iter().any(|(s, _)| !self.abandoned.contains(s)), "answered and closed at once");
        self.b.send(&bytes, &Cuts::default());
        let ctl = self.b.ctl.take().unwrap();
        let _ = ctl.shutdown(Shutdown::Write);
        for (s, ok) in expect {
            if self.abandoned.contains(&s) {
                continue;
            }
            let r = self.b.done(s, "a call returns after its reply")?;
            if r.is_ok() != ok {
                return Err(format!("a call answered {} just before the modem closed the connection returned {:?}", if ok { "OK" } else { "WRONG" }, r));
            }
            self.open.retain(|x| *x != s);
        }
        for s in std::mem::take(&mut self.open) {
            if self.b.done(s, "an unanswered call returns after the modem closed the connection")?.is_ok() {
                return Err("a call succeeded although the modem never answered it".into());
            }
        }
        let s = self.b.slot();
        self.b.request(Req::DropTnc(s));
        self.b.ack(s, "the modem handle is dropped")?;
        drop(ctl);
        self.b.check_panics()
    }
}

fn v03_check(c: &V03, o: &mut Obs) -> Result<(), String> {
    let mut r = V03Run { b: Bench::start(c.mode)?, awaiting: VecDeque::new(), abandoned: BTreeSet::new(), open: vec![], by_line: BTreeMap::new(), n: 0 };
    let mut concurrent = false;
    for step in &c.steps {
        match step {
            V03Step::Calls(n) => {
                let slots: Vec<u32> = (0..*n)
                    .map(|_| {
                        let u = r.unique();
                        r.issue(u)
                    })
                    .collect();
                for s in slots {
                    r.arrive(s)?;
                }
            }
            V03Step::One(cmd) => {
                let s = r.issue(cmd.clone());
                r.arrive(s)?;
            }
            V03Step::Abandon(i) => {
                if !r.open.is_empty() {
                    let s = r.open.remove(*i as usize % r.open.len());
                    r.b.request(Req::Abandon(s));
                    r.b.ack(s, "a call is given up")?;
                    r.abandoned.insert(s);
                }
            }
            V03Step::CallAndAbandon => {
                let u = r.unique();
                let s = r.issue(u);
                r.b.request(Req::Abandon(s));
                r.b.ack(s, "a call is given up")?;
                r.open.retain(|x| *x != s);
                r.abandoned.insert(s);
                o.label("call given up at once");
            }
            V03Step::Reply(v, cuts) => r.reply(v, cuts, o)?,
            V03Step::Stray(ok) => {
                // only when certainly nothing is outstanding: a command given up early may still be on its way
                if r.by_line.is_empty() && r.awaiting.is_empty() {
                    r.b.say(if *ok { "OK" } else { "WRONG" });
                    r.b.ptt_sync()?;
                    o.label("stray reply");
                }
            }
        }
        concurrent |= r.awaiting.len() > 1;
    }
    o.nontrivial_if(concurrent || !r.abandoned.is_empty());
    o.label_if(concurrent, "several outstanding");
    o.label_if(r.awaiting.len() > 16, "more than 16 outstanding at the end");
    let rest: Vec<(bool, Vec<Line>)> = c.last.iter().cycle().take(r.awaiting.len()).map(|b| (*b, vec![])).collect();
    if let Some(n) = c.bye {
        return r.farewell(n as usize, &c.last, o);
    }
    r.reply(&rest, &Cuts::default(), o)?;
    // one more call on the same handle, then close; only commands given up early may still arrive
    let u = r.unique();
    let s = r.issue(u);
    r.arrive(s)?;
    let k = r.awaiting.len();
    let mut tail: Vec<(bool, Vec<Line>)> = (0..k).map(|i| (c.last[i % c.last.len()], vec![])).collect();
    if let Some(t) = tail.last_mut() {
        t.0 = !c.last[k % c.last.len()];
    }
    r.reply(&tail, &Cuts::default(), o)?;
    let n = r.b.lines.len();
    r.b.finish()?;
    for l in &r.b.lines[n..] {
        match r.by_line.get(l) {
            Some(s) if r.abandoned.contains(s) => {}
            _ => return Err(format!("the modem received {:?} which no call asked for", l)),
        }
    }
    Ok(())
}

pub fn v03(ctx: &Ctx) {
    ctx.rule("Non-trivial: two or more commands outstanding at once, or a call given up before its reply. Distinct histories.");
    ctx.run("histories", ctx.scale(6000, 12), v03_case, v03_check);
    silence(ctx, &[0]);
}

// ---- V04 ----

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Outcome {
    Refused,
    Connected,
    Disconnected,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum LinkEnd {
    /// The modem reports the remote disconnect, then the link is dropped.
    Remote,
    /// Dropped; the modem confirms, and reports the link down.
    Drop,
    /// Dropped, and the next attempt made at once; the modem reports the link down before its reply, after it, or not at all.
    DropAtOnce(u8),
    /// Ended by disconnect (or abort); the modem accepts; reports the link down or not.
    Explicit { abort: bool, report: bool },
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum V04Step {
    /// Notices reported and seen between attempts.
    Notices(Vec<Line>),
    /// An attempt with its outcome.
    Attempt { outcome: Outcome, together: bool, noise: Vec<Line>, dawdle: bool, cuts: Cuts, end: LinkEnd, early: Vec<Line>, late: Vec<Line> },
    /// An attempt given up before or after the modem accepted it; the modem then reports its outcome.
    GivenUp { accepted: bool, report: Option<bool> },
    /// An ordinary command.
    Command(bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct V04 {
    mode: Mode,
    steps: Vec<V04Step>,
    /// Own station and target of the attempts, in turn; the same one twice: a call to oneself.
    stations: Vec<(String, String)>,
    /// Attempts given up before the end of the link dropped before was even confirmed, in turn.
    hasty: Vec<u8>,
}

fn v04_case() -> impl Strategy<Value = V04> {
    let notice = prop_oneof![
        2 => Just(Line::Pending),
        2 => Just(Line::CancelPending),
        2 => Just(Line::Disconnected),
        2 => (callsign(), callsign()).prop_map(|(a, b)| Line::Connected(a, b)),
        1 => quiet_line(),
    ];
    let outcome = prop_oneof![1 => Just(Outcome::Refused), 3 => Just(Outcome::Connected), 2 => Just(Outcome::Disconnected)];
    let call_notice = || prop_oneof![Just(Line::Pending), Just(Line::CancelPending), quiet_line()];
    // most attempts see nothing of the kind
    let noise = || prop_oneof![3 => noise(), 1 => prop::collection::vec(call_notice(), 1..4)];
    let early = prop_oneof![
        5 => Just(vec![]),
        1 => prop::collection::vec(prop_oneof![Just(Line::Disconnected), call_notice(), (callsign(), callsign()).prop_map(|(a, b)| Line::Connected(a, b))], 1..3),
    ];
    let late = prop_oneof![4 => Just(vec![]), 1 => prop::collection::vec(call_notice(), 1..3)];
    let end = prop_oneof![Just(LinkEnd::Remote), Just(LinkEnd::Drop), (0u8..3).prop_map(LinkEnd::DropAtOnce), (any::<bool>(), any::<bool>()).prop_map(|(abort, report)| LinkEnd::Explicit { abort, report })];
    let step = prop_oneof![
        3 => prop::collection::vec(notice, 1..4).prop_map(V04Step::Notices),
        6 => (outcome, any::<bool>(), noise(), prop::bool::weighted(0.3), cuts(), end, early, late)
            .prop_map(|(outcome, together, noise, dawdle, cuts, end, early, late)| V04Step::Attempt { outcome, together, noise, dawdle, cuts, end, early, late }),
        1 => (any::<bool>(), prop::option::of(any::<bool>())).prop_map(|(accepted, report)| V04Step::GivenUp { accepted, report }),
        1 => any::<bool>().prop_map(V04Step::Command),
    ];
    let stations = (callsign(), callsign(), prop::bool::weighted(0.15)).prop_map(|(a, b, same)| if same { (a.clone(), a) } else { (a, b) });
    let hasty = prop_oneof![2 => Just(0u8), 1 => 1u8..3];
    (mode(), prop::collection::vec(step, 1..8), prop::collection::vec(stations, 1..4), prop::collection::vec(hasty, 1..4)).prop_map(|(mode, steps, stations, hasty)| V04 { mode, steps, stations, hasty })
}

fn v04_check(c: &V04, o: &mut Obs) -> Result<(), String> {
    let mut b = Bench::start(c.mode)?;
    let mut stations = c.stations.iter().cycle();
    let mut hasty = c.hasty.iter().cycle();
    let mut up = String::new();
    let mut history = 0;
    // a link dropped just now: how its end is reported
    let mut dropped: Option<(u8, u32)> = None;
    let mut attempt = |b: &mut Bench, dropped: &mut Option<(u8, u32)>, up: &mut String, o: &mut Obs| -> Result<u32, String> {
        let (me, them) = stations.next().unwrap();
        let connect = format!("CONNECT {} {}", me, them);
        *up = format!("CONNECTED {} {}", me, them);
        o.label_if(me == them, "calling oneself");
        let s = b.slot();
        let (mut all, mut seen) = (vec![], vec![]);
        if let Some((_, slot)) = dropped {
            all.push(Req::Link(*slot, LinkOp::Drop));
            let n = *hasty.next().unwrap();
            o.label_if(n > 0, "given up while an earlier link is being ended");
            for _ in 0..n {
                seen.push(b.slot());
                all.push(Req::Glimpse(*seen.last().unwrap(), me.clone(), them.clone()));
            }
        }
        all.push(Req::Connect(s, me.clone(), them.clone()));
        b.request(Req::All(all));
        if let Some((how, slot)) = dropped.take() {
            b.ack(slot, "the link is dropped")?;
            b.expect_line("DISCONNECT")?;
            for g in seen {
                b.ack(g, "a connect attempt is given up")?;
            }
            b.say(["DISCONNECTED\rOK", "OK\rDISCONNECTED", "OK"][how as usize % 3]);
        }
        b.expect_line(&connect)?;
        Ok(s)
    };
    for step in &c.steps {
        if dropped.is_some() && !matches!(step, V04Step::Attempt { .. } | V04Step::GivenUp { .. }) {
            // nothing else is made at once
            continue;
        }
        match step {
            V04Step::Notices(v) => {
                for l in v {
                    b.say(&l.text());
                }
                b.ptt_sync()?;
                history += 1;
            }
            V04Step::Command(ok) => {
                let s = b.call(Cmd::Compression(1));
                b.expect_line("COMPRESSION TEXT")?;
                b.say(if *ok { "OK" } else { "WRONG" });
                if b.done(s, "the call returns")?.is_ok() != *ok {
                    return Err("the result of a command is not the modem's reply".into());
                }
            }
            V04Step::GivenUp { accepted, report } => {
                let s = attempt(&mut b, &mut dropped, &mut up, o)?;
                if *accepted {
                    b.say("OK");
                    b.ptt_sync()?;
                }
                b.request(Req::Abandon(s));
                b.ack(s, "a connect attempt is given up")?;
                if !*accepted {
                    b.say("OK");
                }
                match report {
                    Some(true) => b.say(&up),
                    Some(false) => b.say("DISCONNECTED"),
                    None => {}
                }
                b.ptt_sync()?;
                history += 1;
                o.label("attempt given up");
            }
            V04Step::Attempt { outcome, together, noise, dawdle, cuts, end, early, late } => {
                o.label_if(dropped.is_some(), "connecting at once after a drop");
                let s = attempt(&mut b, &mut dropped, &mut up, o)?;
                if b.is_done(s) {
                    return Err("connect returned before the modem answered".into());
                }
                let mut bytes = vec![];
                let lines = |v: &[Line]| v.iter().map(|l| format!("{}\r", l.text())).collect::<String>();
                bytes.extend_from_slice(lines(early).as_bytes());
                o.label_if(early.iter().any(|l| matches!(l, Line::Connected(..) | Line::Disconnected)), "reports before the reply");
                let pending = |v: &[Line]| v.iter().any(|l| matches!(l, Line::Pending | Line::CancelPending));
                o.label_if(*outcome != Outcome::Refused && (pending(noise) || pending(late)), "incoming call next to the outcome");
                match outcome {
                    Outcome::Refused => bytes.extend_from_slice(b"WRONG\r"),
                    _ => {
                        bytes.extend_from_slice(b"OK\r");
                        if !*together {
                            b.send(&bytes, cuts);
                            bytes.clear();
                            if *dawdle {
                                b.ptt_sync()?;
                                for _ in 0..4 {
                                    b.ping("the runtime answers during connect")?;
                                }
                                if b.is_done(s) {
                                    let r = b.done(s, "")?;
                                    return Err(format!("connect returned {:?} before the modem reported the outcome of this attempt", r));
                                }
                            }
                        }
                        bytes.extend_from_slice(lines(noise).as_bytes());
                        bytes.extend_from_slice(if *outcome == Outcome::Connected { up.as_bytes() } else { b"DISCONNECTED" });
                        bytes.push(b'\r');
                        bytes.extend_from_slice(lines(late).as_bytes());
                    }
                }
                b.send(&bytes, cuts);
                let r = b.done(s, "connect returns after the modem reported the outcome")?;
                match (outcome, &r) {
                    (Outcome::Connected, Err(e)) => return Err(format!("the modem accepted and reported the link as connected, but connect failed: {}", e)),
                    (Outcome::Refused, Ok(())) => return Err("the modem refused, but connect succeeded".into()),
                    (Outcome::Disconnected, Ok(())) => return Err("the modem reported the attempt disconnected, but connect succeeded".into()),
                    _ => {}
                }
                o.nontrivial_if(history > 0);
                o.label_if(history > 0 && *outcome == Outcome::Connected, "connected after earlier history");
                o.label_if(history > 0 && *outcome == Outcome::Disconnected, "disconnected after earlier history");
                if r.is_ok() {
                    // the link carries data and is alive
                    b.deliver(b"x", &Cuts::default())?;
                    let s = b.link(LinkOp::Read(10));
                    match b.io(s, "data is read from the new link")? {
                        Ok((v, _)) if v == b"x" => {}
                        other => return Err(format!("reading from the new link gave {:?}", other)),
                    }
                    match end {
                        LinkEnd::Remote => {
                            b.say("DISCONNECTED");
                            b.ptt_sync()?;
                            let s = b.link(LinkOp::Drop);
                            b.ack(s, "the link is dropped")?;
                        }
                        LinkEnd::Drop => {
                            let s = b.link(LinkOp::Drop);
                            b.ack(s, "the link is dropped")?;
                            b.expect_line("DISCONNECT")?;
                            b.say("OK");
                            b.say("DISCONNECTED");
                            b.ptt_sync()?;
                        }
                        LinkEnd::DropAtOnce(how) => {
                            dropped = Some((*how, b.slot()));
                        }
                        LinkEnd::Explicit { abort, report } => {
                            let s = b.link(if *abort { LinkOp::Abort } else { LinkOp::Disconnect });
                            b.expect_line(if *abort { "ABORT" } else { "DISCONNECT" })?;
                            b.say("DISCONNECTED");
                            b.say("OK");
                            b.done(s, "the link is ended")?.map_err(|e| format!("ending the link failed: {}", e))?;
                            if *report {
                                b.say("DISCONNECTED");
                                b.ptt_sync()?;
                            }
                        }
                    }
                }
                history += 1;
            }
        }
    }
    if let Some((_, slot)) = dropped {
        b.request(Req::Link(slot, LinkOp::Drop));
        b.ack(slot, "the link is dropped")?;
        b.expect_line("DISCONNECT")?;
        b.say("OK");
    }
    let n = b.lines.len();
    b.finish()?;
    if b.lines.len() > n {
        return Err(format!("the modem received {:?} which nothing asked for", &b.lines[n..]));
    }
    Ok(())
}

pub fn v04(ctx: &Ctx) {
    ctx.rule("Non-trivial: a connect attempt made after something else happened on the same handle. Distinct histories.");
    ctx.assume("A report of an earlier link's end that the modem makes only after it accepted the new attempt is left open: the modem's language does not tell the two apart.");
    ctx.run("histories", ctx.scale(4000, 12), v04_case, v04_check);
    silence(ctx, &[1]);
}

// ---- V05 ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Transfer {
    /// Lengths of the pieces the modem sends; contents follow from the seed.
    rx: Vec<u32>,
    tx: Vec<u32>,
    seed: u64,
    style: u8,
    bufs: Vec<u32>,
    chunk: u32,
    vectored: bool,
    flush: bool,
    noise: Vec<Line>,
    gap: u8,
    /// The modem takes no data for this many milliseconds at first.
    hold: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct V05 {
    /// The modem's receive window is small.
    narrow: bool,
    mode: Mode,
    links: Vec<Vec<Transfer>>,
    /// The client shuts the last link down before it ends it.
    shut: bool,
}

fn content(seed: u64, style: u8, n: usize) -> Vec<u8> {
    let mut r = Sm(seed);
    match style % 4 {
        0 => (0..n).map(|_| r.next() as u8).collect(),
        1 => (0..n).map(|i| b"OK\rDISCONNECTED\rPTT ON\rIAMALIVE\r"[i % 32]).collect(),
        2 => (0..n).map(|i| (i % 251) as u8).collect(),
        _ => {
            let mut v = Vec::with_capacity(n);
            while v.len() < n {
                v.extend_from_slice(&[b"DISCONNECT\r"[..].to_vec(), vec![0, 0xff, b'\n', 0xEE], r.next().to_le_bytes().to_vec()][r.below(3) as usize]);
            }
            v.truncate(n);
            v
        }
    }
}

fn transfer() -> impl Strategy<Value = Transfer> {
    let len = || prop_oneof![4 => 1u32..40, 3 => 40u32..3000, 1 => 3000u32..70_000, 1 => Just(0u32)];
    let big = || prop_oneof![12 => Just(0u32), 1 => 200_000u32..3_000_000];
    (
        (prop::collection::vec(len(), 0..6), prop::collection::vec(len(), 0..6), big(), big()),
        any::<u64>(),
        0u8..4,
        prop::collection::vec(prop_oneof![3 => 1u32..20, 3 => 20u32..5000, 1 => 5000u32..70_000], 1..4),
        prop_oneof![2 => Just(65536u32), 1 => 1u32..50, 1 => 50u32..5000],
        (prop::bool::weighted(0.3), prop::bool::weighted(0.3)),
        noise(),
        (0u8..3, prop_oneof![3 => Just(0u8), 1 => 1u8..40], any::<prop::sample::Index>(), prop::bool::weighted(0.4)),
    )
        .prop_map(|((mut rx, mut tx, bigrx, bigtx), seed, style, bufs, chunk, (vectored, flush), noise, (gap, hold, place, several))| {
            if bigrx > 0 {
                rx.push(bigrx)
            }
            // more than the system takes at once
            let bigtx = if bigtx > 0 && vectored { bigtx + 3_500_000 } else { bigtx };
            if bigtx > 0 {
                let i = place.index(tx.len() + 1);
                tx.insert(i, bigtx);
                if several {
                    tx.insert(i, bigtx / 3 + 1);
                }
            }
            let total: u32 = rx.iter().chain(&tx).sum();
            // tiny buffers only for moderate amounts
            let floor = total / 4000;
            Transfer { rx, tx, seed, style, bufs: bufs.into_iter().map(|b| b.max(floor)).collect(), chunk: chunk.max(floor).max(1), vectored, flush, noise, gap, hold }
        })
}

fn v05_transfer(b: &mut Bench, t: &Transfer, o: &mut Obs) -> Result<(), String> {
    let mut at = 0;
    let total_rx: usize = t.rx.iter().map(|n| *n as usize).sum();
    let total_tx: usize = t.tx.iter().map(|n| *n as usize).sum();
    let incoming = content(t.seed, t.style, total_rx);
    let outgoing = content(t.seed ^ 0x5555, t.style.wrapping_add(1), total_tx);
    let mut writes = vec![];
    for n in &t.tx {
        writes.push(outgoing[at..at + *n as usize].to_vec());
        at += *n as usize;
    }
    // a few of the writes at once, or all of it in very many slices
    let mut vectored = if t.vectored { 5 } else { 0 };
    if t.vectored && t.seed % 3 == 0 {
        vectored = [9, 40, 1500][(t.seed / 3 % 3) as usize];
        let size = total_tx / vectored + 1;
        writes = writes.iter().flat_map(|w| w.chunks(size).map(|c| c.to_vec())).collect();
    }
    b.gate.chunk.store(t.chunk as usize, Ordering::Relaxed);
    let partial = PARTIAL.load(Ordering::Relaxed);
    if t.hold > 0 {
        b.gate.open.store(false, Ordering::Relaxed);
        let (gate, ms) = (b.gate.clone(), t.hold as u64);
        std::thread::spawn(move || {
            std::thread::sleep(Duration::from_millis(ms));
            gate.open.store(true, Ordering::Relaxed);
        });
    }
    let slot = b.link(LinkOp::Duplex { expect: total_rx, bufs: t.bufs.iter().map(|n| *n as usize).collect(), writes, vectored, flush: t.flush });
    let mut feed = b.data.as_ref().unwrap().try_clone().unwrap();
    let (pieces, gap, bytes) = (t.rx.clone(), t.gap, incoming.clone());
    let feeder = std::thread::spawn(move || {
        use std::io::Write;
        let mut at = 0;
        for n in pieces {
            let n = n as usize;
            if feed.write_all(&bytes[at..at + n]).is_err() {
                return;
            }
            at += n;
            if gap > 0 {
                std::thread::sleep(Duration::from_micros(100 * gap as u64));
            }
        }
    });
    for l in &t.noise {
        b.say(&l.text());
    }
    let got_tx = b.data_in(total_tx)?;
    let r = b.io(slot, "all data the modem sent is read and all data written is sent")?;
    let _ = feeder.join();
    let (got_rx, wrote) = r.map_err(|e| format!("transfer failed: {:?}", e))?;
    if wrote != total_tx {
        return Err(format!("{} of {} bytes written", wrote, total_tx));
    }
    let diff = |name: &str, got: &[u8], want: &[u8]| -> Result<(), String> {
        if got == want {
            return Ok(());
        }
        let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        Err(format!("{}: {} bytes of {}, first difference at {}: got {} expected {}", name, got.len(), want.len(), i, hex(&got[i..got.len().min(i + 16)]), hex(&want[i..want.len().min(i + 16)])))
    };
    diff("bytes read from the link", &got_rx, &incoming)?;
    diff("bytes arriving at the modem", &got_tx, &outgoing)?;
    o.nontrivial_if(total_rx > 0 && total_tx > 0);
    o.label_if(total_rx.max(total_tx) > 200_000, "more than the socket buffers");
    o.label_if(t.bufs.iter().any(|b| *b == 1), "one-byte buffers");
    o.label_if(t.vectored && PARTIAL.load(Ordering::Relaxed) > partial, "vectored write taken in part (here or in a case running at the same time)");
    o.add("bytes", (total_rx + total_tx) as u64);
    Ok(())
}

fn v05_check(c: &V05, o: &mut Obs) -> Result<(), String> {
    let mut b = Bench::start(c.mode)?;
    if c.narrow {
        narrow(b.data.as_ref().unwrap());
    }
    let mut expect: Vec<String> = vec![];
    o.label_if(c.links.len() > 1, "several links on one handle");
    for (i, link) in c.links.iter().enumerate() {
        b.establish("KC1GSL", "W1AW")?;
        expect.push("CONNECT KC1GSL W1AW".into());
        for t in link {
            v05_transfer(&mut b, t, o)?;
        }
        if c.shut && i + 1 == c.links.len() {
            let s = b.link(LinkOp::Shutdown);
            b.io(s, "shutdown returns")?.map_err(|e| format!("shutdown failed on a live link: {:?}", e))?;
            b.wait("the modem sees the end of the data", |e| matches!(e, Ev::Data(_) | Ev::DataEnd)).and_then(|e| match e {
                Ev::DataEnd => Ok(()),
                _ => Err("more data than written arrived at the modem".into()),
            })?;
            // the other direction is still open
            let more = content(c.links.len() as u64, 0, 100);
            b.deliver(&more, &Cuts::default())?;
            let s = b.link(LinkOp::ReadExact(100, vec![33]));
            let (got, _) = b.io(s, "delivered data is read")?.map_err(|e| format!("read failed on a live link: {:?}", e))?;
            if got != more {
                return Err("bytes read from the link after shutting down differ from those sent".into());
            }
            b.queue_data_end();
            o.label("shut down while live");
        }
        let s = b.link(LinkOp::Disconnect);
        b.expect_line("DISCONNECT")?;
        expect.push("DISCONNECT".into());
        b.say("DISCONNECTED");
        b.say("OK");
        b.done(s, "disconnect returns")?.map_err(|e| format!("disconnect failed: {}", e))?;
        if let Some(i) = b.pending(|e| matches!(e, Ev::Data(_))) {
            return Err(format!("more data than written arrived at the modem (event {})", i));
        }
    }
    b.finish()?;
    if b.pending(|e| matches!(e, Ev::Data(_))).is_some() {
        return Err("more data than written arrived at the modem".into());
    }
    if b.lines != expect {
        return Err(format!("the control port received {:?}, expected {:?}", b.lines, expect));
    }
    Ok(())
}

pub fn v05(ctx: &Ctx) {
    ctx.rule("Non-trivial: a transfer with data in both directions at once. Distinct transfer plans.");
    ctx.run(
        "transfers",
        ctx.scale(2500, 12),
        || (mode(), prop::bool::weighted(0.3), prop::collection::vec(prop::collection::vec(transfer(), 1..3), 1..3), prop::bool::weighted(0.3)).prop_map(|(mode, narrow, links, shut)| V05 { narrow, mode, links, shut }),
        v05_check,
    );
    silence(ctx, &[2]);
}

// ---- V06 ----

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Op {
    Read(u16),
    PollRead(u16),
    ReadToEnd(Vec<u16>),
    Write(u16),
    WriteVectored(u8),
    Flush,
    Shutdown,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct V06 {
    mode: Mode,
    /// Data pieces and reads while connected.
    before: Vec<(u16, Option<u16>)>,
    /// Data delivered before the report and not read yet.
    tail: u32,
    /// A read or a write is waiting when the report comes.
    waiting: u8,
    /// What the modem reports right after the disconnect, in the same segment.
    then: Vec<Line>,
    cuts: Cuts,
    settle: bool,
    /// How the client learns of it.
    first: u8,
    ops: Vec<Op>,
    /// Data of a later call arriving after the link has ended.
    late: bool,
    seed: u64,
}

fn v06_case() -> impl Strategy<Value = V06> {
    let op = prop_oneof![
        3 => (1u16..300).prop_map(Op::Read),
        1 => (0u16..30).prop_map(Op::PollRead),
        1 => prop::collection::vec(1u16..40, 1..3).prop_map(Op::ReadToEnd),
        2 => (0u16..300).prop_map(Op::Write),
        1 => (1u8..4).prop_map(Op::WriteVectored),
        1 => Just(Op::Flush),
        1 => Just(Op::Shutdown),
    ];
    let then = prop_oneof![
        3 => Just(vec![]),
        1 => Just(vec![Line::Pending]),
        1 => Just(vec![Line::Pending, Line::CancelPending]),
        1 => Just(vec![Line::Pending, Line::Connected("KC1GSL".into(), "N0CALL".into())]),
        1 => prop::collection::vec(quiet_line(), 1..3),
    ];
    (
        mode(),
        prop::collection::vec((0u16..400, prop::option::of(1u16..300)), 0..4),
        prop_oneof![2 => Just(0u32), 3 => 1u32..600, 1 => 600u32..20_000],
        prop_oneof![6 => Just(0u8), 2 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8), 1 => Just(4u8)],
        then,
        cuts(),
        (any::<bool>(), 0u8..4, prop::bool::weighted(0.3)),
        prop::collection::vec(op, 1..9),
        any::<u64>(),
    )
        .prop_map(|(mode, before, tail, waiting, then, cuts, (settle, first, late), ops, seed)| V06 { mode, before, tail, waiting, then, cuts, settle, first, ops, late, seed })
}

fn v06_check(c: &V06, o: &mut Obs) -> Result<(), String> {
    let mut b = Bench::start(c.mode)?;
    b.establish("KC1GSL", "W1AW")?;
    let mut rng = Sm(c.seed);
    let mut unread: VecDeque<u8> = VecDeque::new();
    let mut take = |unread: &mut VecDeque<u8>, got: &[u8], what: &str| -> Result<(), String> {
        for (i, g) in got.iter().enumerate() {
            match unread.pop_front() {
                Some(x) if x == *g => {}
                Some(x) => return Err(format!("{}: byte {} read as {:02x}, the modem sent {:02x}", what, i, g, x)),
                None => return Err(format!("{}: {} bytes more than the modem sent", what, got.len() - i)),
            }
        }
        Ok(())
    };
    for (n, read) in &c.before {
        let v: Vec<u8> = (0..*n).map(|_| rng.next() as u8).collect();
        b.deliver(&v, &Cuts::default())?;
        unread.extend(&v);
        if let (Some(k), false) = (read, unread.is_empty()) {
            let s = b.link(LinkOp::Read(*k as usize));
            let (got, _) = b.io(s, "delivered data is read")?.map_err(|e| format!("read failed while connected: {:?}", e))?;
            if got.is_empty() {
                return Err("end-of-stream while connected".into());
            }
            take(&mut unread, &got, "while connected")?;
        }
    }
    let mut waiting_slot = None;
    if c.waiting == 1 || c.waiting >= 3 {
        while !unread.is_empty() {
            let s = b.link(LinkOp::Read(500));
            let (got, _) = b.io(s, "delivered data is read")?.map_err(|e| format!("read failed while connected: {:?}", e))?;
            if got.is_empty() {
                return Err("end-of-stream while connected".into());
            }
            take(&mut unread, &got, "while connected")?;
        }
        if c.waiting == 1 {
            waiting_slot = Some(b.link(LinkOp::Read(700)));
            o.label("read waiting at the disconnect");
        } else {
            b.gate.open.store(false, Ordering::Relaxed);
            waiting_slot = Some(b.link(LinkOp::WaitBoth { write: 12 << 20, write_first: c.waiting == 3 }));
            std::thread::sleep(Duration::from_millis(10));
            o.label("read and write waiting at the disconnect");
        }
    } else if c.waiting == 2 {
        b.gate.open.store(false, Ordering::Relaxed);
        waiting_slot = Some(b.link(LinkOp::WriteAll(vec![7; 12 << 20])));
        // until the socket buffers are full
        std::thread::sleep(Duration::from_millis(10));
        o.label("write waiting at the disconnect");
    }
    if (c.waiting == 0 || c.waiting == 2) && c.tail > 0 {
        let v: Vec<u8> = (0..c.tail).map(|_| rng.next() as u8).collect();
        b.deliver(&v, &c.cuts)?;
        unread.extend(&v);
        o.label("unread data at the disconnect");
    }
    let mut bytes = b"DISCONNECTED\r".to_vec();
    for l in &c.then {
        bytes.extend_from_slice(format!("{}\r", l.text()).as_bytes());
    }
    o.label_if(c.then.iter().any(|l| matches!(l, Line::Pending)), "incoming call right after");
    b.send(&bytes, &c.cuts);
    let mut known = false;
    let mut eof = false;
    let aborted = |r: &IoRes<(Vec<u8>, usize)>| matches!(r, Err((ErrorKind::ConnectionAborted, _)));
    if let Some(s) = waiting_slot {
        let r = b.io(s, "a waiting operation ends after the remote disconnect")?;
        if c.waiting != 2 {
            match r {
                Ok((v, _)) if v.is_empty() => eof = true,
                other => return Err(format!("waiting operations gave {:?} at the remote disconnect, expected end-of-stream and connection aborted", other)),
            }
        } else if !aborted(&r) {
            return Err(format!("a waiting write gave {:?} at the remote disconnect", r));
        }
        known = true;
    }
    if c.settle {
        b.ptt_sync()?;
    }
    o.nontrivial_if(!unread.is_empty() || c.ops.len() > 1 || c.waiting > 0);
    if !known {
        // the client finds out by reading to the end, or by writing or flushing until it fails
        if c.first == 0 {
            let s = b.link(LinkOp::ReadToEnd(vec![1 + (c.seed % 50) as usize]));
            let (got, _) = b.io(s, "reading reaches end-of-stream after the remote disconnect")?.map_err(|e| format!("read failed after the remote disconnect: {:?}", e))?;
            take(&mut unread, &got, "after the disconnect")?;
            if !unread.is_empty() {
                return Err(format!("end-of-stream although {} bytes the modem had delivered were not read", unread.len()));
            }
            eof = true;
        } else {
            let p = Patience::new();
            loop {
                let s = b.link(match c.first {
                    1 => LinkOp::Write(vec![1]),
                    2 => LinkOp::Flush,
                    _ => LinkOp::WriteVectored(vec![vec![1], vec![2]]),
                });
                let r = b.io(s, "an operation returns after the remote disconnect")?;
                if aborted(&r) {
                    break;
                }
                if r.is_err() {
                    return Err(format!("an operation failed with {:?} instead of connection aborted", r));
                }
                p.check("writing and flushing fail after the remote disconnect")?;
                std::thread::sleep(Duration::from_micros(200));
            }
        }
    }
    if c.late && unread.is_empty() {
        if !eof {
            let s = b.link(LinkOp::Read(5));
            match b.io(s, "reading after the remote disconnect")? {
                Ok((v, _)) if v.is_empty() => {}
                other => return Err(format!("reading gave {:?} after everything was read, expected end-of-stream", other)),
            }
            eof = true;
        }
        b.deliver(b"data of a later call", &Cuts::default())?;
        o.label("data after the end");
    }
    for op in &c.ops {
        let (lop, name) = match op {
            Op::Read(n) => (LinkOp::Read(*n as usize), "read"),
            Op::PollRead(n) => (LinkOp::PollRead(*n as usize), "read"),
            Op::ReadToEnd(v) => (LinkOp::ReadToEnd(v.iter().map(|n| *n as usize).collect()), "read to end"),
            Op::Write(n) => (LinkOp::Write(vec![3; *n as usize]), "write"),
            Op::WriteVectored(n) => (LinkOp::WriteVectored(vec![vec![4; 3]; *n as usize]), "vectored write"),
            Op::Flush => (LinkOp::Flush, "flush"),
            Op::Shutdown => (LinkOp::Shutdown, "shutdown"),
        };
        let asked = match op {
            Op::Read(n) | Op::PollRead(n) => *n as usize,
            _ => usize::MAX,
        };
        let s = b.link(lop);
        let r = b.io(s, &format!("{} returns after the remote disconnect", name))?;
        match op {
            Op::Read(_) | Op::PollRead(_) | Op::ReadToEnd(_) => {
                let (got, _) = r.map_err(|e| format!("{} failed after the remote disconnect: {:?}", name, e))?;
                take(&mut unread, &got, name)?;
                if got.is_empty() && asked > 0 && !unread.is_empty() || matches!(op, Op::ReadToEnd(_)) && !unread.is_empty() {
                    return Err(format!("end-of-stream although {} bytes the modem had delivered were not read", unread.len()));
                }
            }
            _ => {
                if !aborted(&r) {
                    return Err(format!("{} gave {:?} after the remote disconnect, expected connection aborted", name, r));
                }
            }
        }
    }
    let _ = eof;
    b.check_panics()?;
    let s = b.link(LinkOp::Drop);
    b.ack(s, "the link is dropped")?;
    b.finish()
}

pub fn v06(ctx: &Ctx) {
    ctx.rule("Non-trivial: unread data, a waiting operation or several operations after the disconnect. Distinct histories.");
    ctx.assume("Data counts as delivered before the report when the receiving socket had acknowledged it before the report was sent.");
    ctx.run("histories", ctx.scale(4000, 12), v06_case, v06_check);
    silence(ctx, &[5]);
}

// ---- V07 ----

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum End {
    Drop,
    Disconnect,
    Abort,
    /// A disconnect or an abort (the first flag) given up, at once or (the second flag) when the modem has received it.
    Forsake(bool, bool),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
struct V07Link {
    /// Reported while the link is held.
    during: Vec<Line>,
    /// The client noticed (by reading to the end) before it ended the link.
    noticed: bool,
    end: End,
    ok: bool,
    /// Lines reported before the reply to an explicit end.
    before_reply: bool,
    after: bool,
    /// What is done with the link while it is live.
    doing: Vec<Doing>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Doing {
    Write(u8),
    Flush,
    /// The client shuts its side of the data connection down.
    Shutdown,
    /// Data is sent by the modem and read.
    Read(u8),
    /// A read is tried and given up.
    PollRead,
    /// Data is sent by the modem and not read.
    Unread(u8),
    /// The modem ends its side of the data connection (the link is still up).
    DataEnd,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct V07 {
    mode: Mode,
    links: Vec<V07Link>,
}

fn v07_case() -> impl Strategy<Value = V07> {
    let down = || Line::Disconnected;
    let during = prop_oneof![
        4 => Just(vec![]),
        3 => Just(vec![down()]),
        1 => Just(vec![Line::Pending]),
        1 => Just(vec![Line::Pending, Line::CancelPending]),
        1 => Just(vec![down(), Line::Pending]),
        1 => Just(vec![down(), Line::Pending, Line::CancelPending]),
        1 => Just(vec![down(), Line::Connected("KC1GSL".into(), "N0CALL".into())]),
        1 => Just(vec![down(), down()]),
        1 => prop::collection::vec(quiet_line(), 1..3),
    ];
    let end = prop_oneof![3 => Just(End::Drop), 2 => Just(End::Disconnect), 2 => Just(End::Abort), 1 => (any::<bool>(), any::<bool>()).prop_map(|(a, l)| End::Forsake(a, l))];
    let one = prop_oneof![
        4 => (1u8..50).prop_map(Doing::Write),
        2 => Just(Doing::Flush),
        2 => Just(Doing::Shutdown),
        3 => (1u8..50).prop_map(Doing::Read),
        2 => Just(Doing::PollRead),
        2 => (1u8..50).prop_map(Doing::Unread),
        1 => Just(Doing::DataEnd),
    ];
    let doing = prop_oneof![2 => Just(vec![]), 3 => prop::collection::vec(one, 1..5)];
    let link = (during, any::<bool>(), end, prop::bool::weighted(0.7), any::<bool>(), any::<bool>(), doing)
        .prop_map(|(during, noticed, end, ok, before_reply, after, doing)| V07Link { during, noticed, end, ok, before_reply, after, doing });
    (mode(), prop_oneof![9 => prop::collection::vec(link.clone(), 1..4), 1 => prop::collection::vec(link, 4..10)]).prop_map(|(mode, links)| V07 { mode, links })
}

fn v07_check(c: &V07, o: &mut Obs) -> Result<(), String> {
    let mut b = Bench::start(c.mode)?;
    o.label_if(c.links.len() > 1, "several links");
    // the data connection outlives the links
    let (mut shut, mut ended) = (false, false);
    // delivered and not yet read
    let mut unread = 0;
    // commands that may still come from an explicit end that was given up
    let mut spare: Vec<&str> = vec![];
    for l in &c.links {
        b.establish_after("KC1GSL", "W1AW", &std::mem::take(&mut spare))?;
        for d in &l.doing {
            match *d {
                Doing::Write(n) if !shut => {
                    let s = b.link(LinkOp::WriteAll(vec![1; n as usize]));
                    b.io(s, "data is written")?.map_err(|e| format!("write failed on a live link: {:?}", e))?;
                    b.data_in(n as usize)?;
                }
                Doing::Flush if !shut => {
                    let s = b.link(LinkOp::Flush);
                    b.io(s, "flush returns")?.map_err(|e| format!("flush failed on a live link: {:?}", e))?;
                }
                Doing::Shutdown if !shut => {
                    let s = b.link(LinkOp::Shutdown);
                    b.io(s, "shutdown returns")?.map_err(|e| format!("shutdown failed on a live link: {:?}", e))?;
                    shut = true;
                    o.label("shut down while live");
                }
                Doing::Read(n) if !ended => {
                    b.deliver(&vec![2; n as usize], &Cuts::default())?;
                    unread += n as usize;
                    let s = b.link(LinkOp::ReadExact(unread, vec![1 + n as usize]));
                    let (got, _) = b.io(s, "delivered data is read")?.map_err(|e| format!("read failed on a live link: {:?}", e))?;
                    if got.len() != unread {
                        return Err(format!("{} of {} bytes could be read on a live link", got.len(), unread));
                    }
                    unread = 0;
                }
                Doing::PollRead if !ended && unread == 0 => {
                    let s = b.link(LinkOp::PollRead(10));
                    match b.io(s, "a single poll returns")? {
                        Err((ErrorKind::WouldBlock, _)) => {}
                        other => return Err(format!("reading gave {:?} on a live link without data", other)),
                    }
                }
                Doing::Unread(n) if !ended => {
                    b.deliver(&vec![2; n as usize], &Cuts::default())?;
                    unread += n as usize;
                    o.label("unread data at the end");
                }
                Doing::DataEnd if !ended => {
                    let _ = b.data.as_ref().unwrap().shutdown(Shutdown::Write);
                    let s = b.link(LinkOp::ReadToEnd(vec![30]));
                    b.io(s, "reading ends with the data connection")?.map_err(|e| format!("read failed: {:?}", e))?;
                    (ended, unread) = (true, 0);
                    o.label("data connection ended while the link is live");
                }
                _ => {}
            }
        }
        let mut bytes = vec![];
        for x in &l.during {
            bytes.extend_from_slice(format!("{}\r", x.text()).as_bytes());
        }
        b.send(&bytes, &Cuts::default());
        b.ptt_sync()?;
        let down = l.during.contains(&Line::Disconnected);
        if down && l.noticed {
            let s = b.link(LinkOp::ReadToEnd(vec![10]));
            b.io(s, "reading reaches end-of-stream after the remote disconnect")?.map_err(|e| format!("read failed: {:?}", e))?;
            unread = 0;
        }
        o.nontrivial_if(down || l.end != End::Drop || !l.during.is_empty() || !l.doing.is_empty());
        o.label(match (&l.end, down) {
            (End::Drop, false) => "drop of a live link",
            (End::Drop, true) => "drop of an ended link",
            (End::Forsake(..), _) => "explicit end given up",
            (_, false) => "explicit end of a live link",
            (_, true) => "explicit end of an ended link",
        });
        o.label_if(!l.ok && l.end != End::Drop, "explicit end refused");
        match l.end {
            End::Drop => {
                let s = b.link(LinkOp::Drop);
                b.ack(s, "the link is dropped")?;
                if !down {
                    b.expect_line("DISCONNECT")?;
                    b.say(if l.ok { "OK" } else { "WRONG" });
                }
            }
            End::Forsake(abort, late) => {
                let text = if abort { "ABORT" } else { "DISCONNECT" };
                if late {
                    let s = b.link(if abort { LinkOp::Abort } else { LinkOp::Disconnect });
                    b.expect_line(text)?;
                    b.request(Req::Abandon(s));
                    b.ack(s, "the explicit end is given up")?;
                } else {
                    let s = b.link(LinkOp::Forsake(abort));
                    b.ack(s, "the explicit end is given up")?;
                }
                // the end of the link dropped with the call, and what was not sent yet, may follow
                spare = vec![text, "DISCONNECT"];
                if late {
                    b.say(if l.ok { "OK" } else { "WRONG" });
                    spare.remove(0);
                } else if !down {
                    match b.next_line("the modem is told of a link given up")? {
                        Some(l) if spare.contains(&l.as_str()) => {
                            b.say("OK");
                            spare.remove(spare.iter().position(|x| *x == l).unwrap());
                        }
                        other => return Err(format!("the modem received {:?} when a live link was given up", other)),
                    }
                }
            }
            End::Disconnect | End::Abort => {
                let (op, text) = if l.end == End::Abort { (LinkOp::Abort, "ABORT") } else { (LinkOp::Disconnect, "DISCONNECT") };
                let s = b.link(op);
                b.expect_line(text)?;
                let mut bytes = vec![];
                if l.before_reply {
                    bytes.extend_from_slice(b"DISCONNECTED\r");
                }
                bytes.extend_from_slice(if l.ok { b"OK\r" } else { b"WRONG\r" });
                b.send(&bytes, &Cuts::default());
                let r = b.done(s, "the explicit end returns")?;
                if r.is_ok() != l.ok {
                    return Err(format!("{} was answered {} but returned {:?}", text, if l.ok { "OK" } else { "WRONG" }, r));
                }
                if !l.ok && !down && !l.before_reply {
                    // refused: the link is still live and is given up now
                    b.expect_line("DISCONNECT")?;
                    b.say("OK");
                }
            }
        }
        if l.after {
            b.say("DISCONNECTED");
        }
        b.ptt_sync()?;
        if spare.is_empty() && b.line_waiting() {
            let l = b.next_line("")?;
            return Err(format!("the modem received {:?} after the link had been given up", l));
        }
    }
    let n = b.lines.len();
    b.finish()?;
    if b.lines[n..].iter().any(|l| match spare.iter().position(|x| x == l) {
        Some(i) => {
            spare.remove(i);
            false
        }
        None => true,
    }) {
        return Err(format!("the modem received {:?} after the link had been given up", &b.lines[n..]));
    }
    Ok(())
}

pub fn v07(ctx: &Ctx) {
    ctx.rule("Non-trivial: the modem reported something about the connection while the link was held, or the link was ended explicitly. Distinct histories.");
    ctx.run("histories", ctx.scale(4000, 12), v07_case, v07_check);
    silence(ctx, &[3]);
}

// ---- V08 ----

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Loss {
    Close,
    HalfClose,
    Reset,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum At {
    Idle,
    /// Calls outstanding, some of them given up.
    Calls(u8, Vec<u8>),
    ConnectSent,
    ConnectAccepted,
    /// Live link: nothing, a read, or a write waiting.
    Link(u8),
    /// The link has already been reported down.
    LinkDown,
    /// While the forced disconnect of a dropped link is unanswered.
    LinkDropped,
    /// While an explicit disconnect is unanswered.
    Disconnecting,
    /// The handle was dropped with commands unanswered.
    HandleDropped(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct V08 {
    mode: Mode,
    warmup: Vec<bool>,
    at: At,
    partial: String,
    loss: Loss,
    data_too: bool,
    later: u8,
    delay: bool,
}

fn v08_case() -> impl Strategy<Value = V08> {
    let at = prop_oneof![
        2 => Just(At::Idle),
        3 => (1u8..5, prop::collection::vec(any::<u8>(), 0..3)).prop_map(|(n, a)| At::Calls(n, a)),
        2 => Just(At::ConnectSent),
        2 => Just(At::ConnectAccepted),
        3 => (0u8..3).prop_map(At::Link),
        1 => Just(At::LinkDown),
        1 => Just(At::LinkDropped),
        1 => Just(At::Disconnecting),
        2 => (1u8..4).prop_map(At::HandleDropped),
    ];
    (
        mode(),
        prop::collection::vec(any::<bool>(), 0..3),
        at,
        prop_oneof![3 => Just(String::new()), 1 => Just("O".to_string()), 1 => Just("OK".to_string()), 1 => Just("CONNECTED KC1GSL W1AW".to_string()), 1 => Just("BUFFER 12".to_string()), 1 => Just("IAMALIVE\rPTT".to_string())],
        prop_oneof![Just(Loss::Close), Just(Loss::HalfClose), Just(Loss::Reset)],
        any::<bool>(),
        0u8..4,
        any::<bool>(),
    )
        .prop_map(|(mode, warmup, at, partial, loss, data_too, later, delay)| V08 { mode, warmup, at, partial, loss, data_too, later, delay })
}

fn v08_check(c: &V08, o: &mut Obs) -> Result<(), String> {
    let mut b = Bench::start(c.mode)?;
    for ok in &c.warmup {
        let s = b.call(Cmd::Bandwidth(1));
        b.expect_line("BW2300")?;
        b.say(if *ok { "OK" } else { "WRONG" });
        if b.done(s, "the call returns")?.is_ok() != *ok {
            return Err("the result of a command is not the modem's reply".into());
        }
    }
    let (me, them) = ("KC1GSL", "W1AW");
    let mut calls = vec![];
    let mut waiting = None;
    let mut connecting = None;
    let mut linked = false;
    let mut dropped = false;
    let mut unread: Vec<u8> = vec![];
    match &c.at {
        At::Idle => {}
        At::Calls(n, give_up) => {
            for i in 0..*n {
                let s = b.call(Cmd::MyCall(vec![format!("K{}AA", i)]));
                b.expect_line(&format!("MYCALL K{}AA", i))?;
                calls.push(s);
            }
            for g in give_up {
                if calls.len() > 1 {
                    let s = calls.remove(*g as usize % calls.len());
                    b.request(Req::Abandon(s));
                    b.ack(s, "a call is given up")?;
                }
            }
        }
        At::ConnectSent | At::ConnectAccepted => {
            let s = b.slot();
            b.request(Req::Connect(s, me.into(), them.into()));
            b.expect_line("CONNECT KC1GSL W1AW")?;
            if c.at == At::ConnectAccepted {
                b.say("OK");
                b.ptt_sync()?;
            }
            connecting = Some(s);
        }
        At::Link(w) => {
            b.establish(me, them)?;
            linked = true;
            match w {
                1 => waiting = Some(b.link(LinkOp::Read(100))),
                2 => {
                    unread = vec![0x41; 50];
                    b.deliver(&unread, &Cuts::default())?;
                }
                _ => {}
            }
        }
        At::LinkDown => {
            b.establish(me, them)?;
            linked = true;
            b.say("DISCONNECTED");
            b.ptt_sync()?;
        }
        At::LinkDropped => {
            b.establish(me, them)?;
            let s = b.link(LinkOp::Drop);
            b.ack(s, "the link is dropped")?;
            b.expect_line("DISCONNECT")?;
        }
        At::Disconnecting => {
            b.establish(me, them)?;
            let s = b.link(LinkOp::Disconnect);
            b.expect_line("DISCONNECT")?;
            calls.push(s);
        }
        At::HandleDropped(n) => {
            for i in 0..*n {
                let s = b.call(Cmd::MyCall(vec![format!("K{}AA", i)]));
                b.expect_line(&format!("MYCALL K{}AA", i))?;
                b.request(Req::Abandon(s));
                b.ack(s, "a call is given up")?;
            }
            let s = b.slot();
            b.request(Req::DropTnc(s));
            b.ack(s, "the modem handle is dropped")?;
            dropped = true;
        }
    }
    o.label(match c.at {
        At::Idle => "idle",
        At::Calls(..) => "calls outstanding",
        At::ConnectSent | At::ConnectAccepted => "connecting",
        At::Link(_) | At::LinkDown => "link held",
        At::LinkDropped | At::Disconnecting => "ending a link",
        At::HandleDropped(_) => "handle dropped",
    });
    o.label(match c.loss {
        Loss::Close => "closed",
        Loss::HalfClose => "half closed",
        Loss::Reset => "reset",
    });
    o.nontrivial_if(c.at != At::Idle);
    let partial = c.partial.clone();
    b.send(partial.as_bytes(), &Cuts::default());
    if c.delay {
        std::thread::sleep(Duration::from_micros(400));
    }
    // the reader thread holds another descriptor of the connection: shut it down, then let go
    let ctl = b.ctl.take().unwrap();
    match c.loss {
        Loss::Close => {
            let _ = ctl.shutdown(Shutdown::Both);
        }
        Loss::HalfClose => {
            let _ = ctl.shutdown(Shutdown::Write);
        }
        Loss::Reset => {
            reset(&ctl);
            let _ = ctl.shutdown(Shutdown::Read);
        }
    }
    let keep = if c.loss == Loss::HalfClose { Some(ctl) } else { drop(ctl); None };
    if c.data_too && !linked {
        let _ = b.data.as_ref().unwrap().shutdown(Shutdown::Both);
    }
    for s in calls {
        if b.done(s, "an outstanding call fails after the control connection was lost")?.is_ok() {
            return Err("a call succeeded although the modem never answered it".into());
        }
    }
    if let Some(s) = connecting {
        if b.done(s, "a connect attempt fails after the control connection was lost")?.is_ok() {
            return Err("connect succeeded although the modem never reported the link".into());
        }
    }
    b.ping("the runtime answers after the control connection was lost")?;
    if let Some(s) = waiting {
        match b.io(s, "a waiting read ends after the control connection was lost")? {
            Ok((v, _)) if v.is_empty() => {}
            other => return Err(format!("a waiting read gave {:?} after the control connection was lost, expected end-of-stream", other)),
        }
    }
    if linked {
        let s = b.link(LinkOp::ReadToEnd(vec![7]));
        let (v, _) = b.io(s, "a live link reaches end-of-stream after the control connection was lost")?.map_err(|e| format!("reading failed after the control connection was lost: {:?}", e))?;
        if !v.is_empty() && !unread.starts_with(&v) {
            return Err(format!("reading gave {} which the modem did not send", hex(&v)));
        }
        let s = b.link(LinkOp::Drop);
        b.ack(s, "the link is dropped")?;
    }
    if !dropped {
        for i in 0..c.later {
            if i % 2 == 0 {
                let s = b.call(Cmd::Compression(2));
                if b.done(s, "a later call fails after the control connection was lost")?.is_ok() {
                    return Err("a call succeeded without a control connection".into());
                }
            } else {
                let s = b.slot();
                b.request(Req::Connect(s, me.into(), them.into()));
                if b.done(s, "a later connect fails after the control connection was lost")?.is_ok() {
                    return Err("connect succeeded without a control connection".into());
                }
            }
        }
    }
    b.ping("the runtime answers after the control connection was lost")?;
    b.rt.idle("after the control connection was lost")?;
    if !dropped {
        let s = b.slot();
        b.request(Req::DropTnc(s));
        b.ack(s, "the modem handle is dropped")?;
    }
    b.wait("the data connection is closed after the handle was dropped", |e| matches!(e, Ev::DataEnd))?;
    b.wait("the control connection is closed", |e| matches!(e, Ev::CtlEnd))?;
    drop(keep);
    b.check_panics()
}

/// Calls in flight on several threads at the very moment the control connection is lost.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Storm {
    tasks: u8,
    rounds: u8,
    batch: u8,
    loss: u8,
}

fn storm_check(c: &Storm, o: &mut Obs) -> Result<(), String> {
    let mut b = Bench::start(Mode { multi: true, verbose: false })?;
    let first = b.slot();
    for _ in 1..c.tasks {
        b.slot();
    }
    b.request(Req::Storm(first, c.tasks as u32));
    // replies in advance, so that the calls follow one another without a pause
    let batch = b"OK\r".repeat(c.batch.max(1) as usize);
    for _ in 0..c.rounds {
        b.send(&batch, &Cuts::default());
        b.drain();
    }
    o.label(["control port closed", "control port reset", "malformed line"][c.loss as usize % 3]);
    o.nontrivial_if(true);
    match c.loss % 3 {
        0 => {
            let _ = b.ctl.as_ref().unwrap().shutdown(Shutdown::Both);
        }
        1 => {
            let s = b.ctl.take().unwrap();
            reset(&s);
            let _ = s.shutdown(Shutdown::Read);
        }
        _ => b.send(b"SPAM\r", &Cuts::default()),
    }
    for i in 0..c.tasks as u32 {
        b.done(first + i, "every call in flight fails after the loss of the control connection")?.err();
    }
    b.check_panics()
}

pub fn v08(ctx: &Ctx) {
    ctx.rule("Non-trivial: something was going on (calls, connecting, a link, shutdown) when the control connection was lost. Distinct session points, losses and follow-ups.");
    ctx.assume("A stall is no progress for at least 8 s while loopback traffic in the same process flows; a busy loop is 3 s of CPU time without progress.");
    ctx.run("losses", ctx.scale(1600, 12), v08_case, v08_check);
    ctx.run("storms", ctx.scale(4000, 10), || (1u8..8, 0u8..20, 1u8..120, 0u8..3).prop_map(|(tasks, rounds, batch, loss)| Storm { tasks, rounds, batch, loss }), storm_check);
}

// ---- V09 ----

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Bad {
    Bytes(Vec<u8>),
    /// A well-formed line, changed.
    Changed { line: Line, reply: Option<bool>, change: u8, at: u16, byte: u8 },
    Text(String),
    /// A beginning and many times the same byte.
    Long { start: String, byte: u8, n: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct V09 {
    mode: Mode,
    /// Calls waiting for a reply, and how many of them are answered before the bad line.
    calls: u8,
    answered: Vec<bool>,
    good: Vec<Line>,
    bad: Bad,
    /// The line ends (else the connection closes inside it).
    ended: bool,
    more: Vec<u8>,
    cuts: Cuts,
    connecting: bool,
}

fn bad_line() -> impl Strategy<Value = Bad> {
    let fixed = prop::sample::select(vec![
        "", "ok", "OK ", " OK", "OKAY", "OKOK", "WRON", "WRONGX", "\nOK", "OK\n", "BUFFER", "BUFFER ", "BUFFER -1", "BUFFER 99999999999999999999999", "BUFFER 12 ", "BUFFER 0x10", "BUFFER  7", "BUFFER 7.5",
        "BUSY", "BUSY ", "BUSY on", "BUSY ONN", "BUSY OFFF", "BUSY  ON", "PTT", "PTT TX", "PTT ON ", "PTT OFF\n", "PTTON", "IAMALIVE ", "IAMALIV", "IAMALIVEX", "REGISTERED", "REGISTERED ", "REGISTERED AB", "REGISTERED KC1GSL ",
        "REGISTERED kc1gsl", "REGISTERED TOOLONGCALL", "REGISTERED KC1GSL W1AW", "REGISTERED KC1GSL-", "REGISTERED KC1GSL-ABC", "REGISTERED KC1GSLXX", "REGISTERED 1K1A-", "REGISTERED W1AWABCDEF-12", "CONNECTED", "CONNECTED ", "CONNECTED KC1GSL", "CONNECTED KC1GSL ", "CONNECTED KC1GSL W1", "CONNECTED KC1GSL W1AW ", "CONNECTED KC1GSL,W1AW",
        "CONNECTED KC1GSL  W1AW", "CONNECTED kc1gsl w1aw", "CONNECTEDX KC1GSL W1AW", "DISCONNECTED ", "DISCONNECTEDX", "DISCONNECT", "PENDING ", "PEND", "CANCELPENDING1", "CANCEL", "LINK REGISTERED", "ENCRYPTION OFF", "VERSION 4", "\0", "\u{e9}", "\u{1F600}", "OK\0", "CONNECT KC1GSL W1AW",
    ]);
    prop_oneof![
        3 => fixed.prop_map(|s| Bad::Text(s.to_string())),
        2 => prop::collection::vec(any::<u8>(), 0..40).prop_map(Bad::Bytes),
        1 => prop::collection::vec(any::<u8>(), 100..3000).prop_map(Bad::Bytes),
        1 => (prop::sample::select(vec!["", "BUFFER ", "REGISTERED ", "CONNECTED KC1GSL ", "OK"]), prop::sample::select(vec![b'0', b'7', b'A', b' ', b'-', b'\n', 0xff]), 8u32..30_000).prop_map(|(start, byte, n)| Bad::Long { start: start.into(), byte, n }),
        5 => (any_line(), prop::option::of(any::<bool>()), 0u8..14, any::<u16>(), any::<u8>()).prop_map(|(line, reply, change, at, byte)| Bad::Changed { line, reply, change, at, byte }),
        2 => (0u8..14, any::<u16>(), any::<u8>()).prop_map(|(change, at, byte)| Bad::Changed { line: Line::Connected("KC1GSL".into(), "W1AW".into()), reply: None, change, at, byte }),
    ]
}

fn call_text(t: &[u8]) -> bool {
    let (base, ssid) = match t.iter().position(|b| *b == b'-') {
        Some(i) => (&t[..i], Some(&t[i + 1..])),
        None => (t, None),
    };
    let ok = |b: &u8| b.is_ascii_uppercase() || b.is_ascii_digit();
    (3..=7).contains(&base.len()) && base.iter().all(ok) && ssid.map_or(true, |s| (1..=2).contains(&s.len()) && s.iter().all(ok))
}

/// Exactly one well-formed status or reply line (without its carriage return). Written from the property text.
pub fn well_formed(l: &[u8]) -> bool {
    if [&b"OK"[..], b"WRONG", b"IAMALIVE", b"BUSY ON", b"BUSY OFF", b"PTT ON", b"PTT OFF", b"DISCONNECTED", b"PENDING", b"CANCELPENDING"].contains(&l) {
        return true;
    }
    if let Some(n) = l.strip_prefix(b"BUFFER ") {
        return !n.is_empty() && n.iter().all(|b| b.is_ascii_digit()) && std::str::from_utf8(n).unwrap().parse::<usize>().is_ok();
    }
    if let Some(c) = l.strip_prefix(b"REGISTERED ") {
        return call_text(c);
    }
    if let Some(c) = l.strip_prefix(b"CONNECTED ") {
        let mut it = c.splitn(2, |b| *b == b' ');
        return match (it.next(), it.next()) {
            (Some(a), Some(b)) => call_text(a) && call_text(b),
            _ => false,
        };
    }
    false
}

/// The bytes of the malformed line without carriage return; None if it came out well-formed.
fn bad_bytes(b: &Bad) -> Option<Vec<u8>> {
    let mut v = match b {
        Bad::Long { start, byte, n } => {
            let mut t = start.clone().into_bytes();
            t.resize(t.len() + *n as usize, *byte);
            t
        }
        Bad::Bytes(v) => v.clone(),
        Bad::Text(s) => s.clone().into_bytes(),
        Bad::Changed { line, reply, change, at, byte } => {
            let mut t = match reply {
                Some(true) => b"OK".to_vec(),
                Some(false) => b"WRONG".to_vec(),
                None => line.text().into_bytes(),
            };
            let i = *at as usize % t.len();
            match change {
                0 => t[i] = *byte,
                1 => t.insert(i, *byte),
                2 => {
                    t.remove(i);
                }
                3 => t.push(*byte),
                4 => t.truncate(i),
                6 => t.make_ascii_lowercase(),
                7 => {
                    // first letters only
                    for k in 1..t.len() {
                        if t[k - 1].is_ascii_alphabetic() {
                            t[k].make_ascii_lowercase();
                        }
                    }
                }
                8 => {
                    // one letter in the other case
                    let k = (0..t.len()).map(|k| (i + k) % t.len()).find(|k| t[*k].is_ascii_alphabetic()).unwrap();
                    t[k] ^= 0x20;
                }
                9 => {
                    // another separator
                    let to: &[u8] = [&b"\t"[..], b"  ", b"", b"_", b"\xa0", b",", b"\n", b"=", b" \0"][*byte as usize % 9];
                    t = t.split(|b| *b == b' ').collect::<Vec<_>>().join(to);
                }
                10 => {
                    let to: &[u8] = [&b" "[..], b"\n", b"\t", b"\0", b"\xef\xbb\xbf", b">", b"0"][*byte as usize % 7];
                    t = [to, &t[..]].concat();
                }
                11 => {
                    let to: &[u8] = [&b" "[..], b"\n", b"\t", b"\0", b"\xc3\xa9", b";", b"0x", b" OK", b"\nOK", b".0"][*byte as usize % 10];
                    t.extend(to);
                }
                12 => {
                    // the argument in front of the keyword
                    let mut words: Vec<&[u8]> = t.split(|b| *b == b' ').collect();
                    words.rotate_left(1);
                    t = words.join(&b' ');
                }
                13 => {
                    // a sign before each number, or the digits of another script
                    let at = t.iter().position(|b| b.is_ascii_digit()).unwrap_or(0);
                    let to: &[u8] = [&b"+"[..], b"-", b"0x", b"\xd9\xa3", b"\xef\xbc\x91"][*byte as usize % 5];
                    t.splice(at..at, to.iter().copied());
                }
                _ => {
                    let copy = t.clone();
                    t.extend_from_slice(&copy);
                }
            }
            t
        }
    };
    v.retain(|b| *b != b'\r');
    if well_formed(&v) {
        None
    } else {
        Some(v)
    }
}

fn v09_case() -> impl Strategy<Value = V09> {
    (
        mode(),
        0u8..4,
        prop::collection::vec(any::<bool>(), 0..3),
        prop_oneof![19 => prop::collection::vec(status_line(), 0..5), 1 => prop::collection::vec(status_line(), 30..200)],
        bad_line(),
        prop::bool::weighted(0.85),
        prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(any::<u8>().prop_filter("cr", |b| *b != b'\r'), 1..30)],
        cuts(),
        prop::bool::weighted(0.3),
    )
        .prop_map(|(mode, calls, answered, good, bad, ended, more, cuts, connecting)| V09 { mode, calls, answered, good, bad, ended, more, cuts, connecting })
}

/// Identities that a lenient reader could find in the line.
fn identities_in(line: &[u8]) -> Vec<String> {
    let mut found = BTreeSet::new();
    for run in line.split(|b| !b.is_ascii_alphanumeric() && *b != b'-').filter(|r| r.len() >= 3) {
        for from in [0, run.len().saturating_sub(6), run.len().saturating_sub(7)] {
            for to in (from + 3..=run.len().min(from + 12)).chain([run.len()]) {
                let t = String::from_utf8_lossy(&run[from..to]).to_ascii_uppercase();
                if crate::station::is_identity(&t) {
                    found.insert(t);
                }
            }
        }
    }
    found.into_iter().rev().take(40).collect()
}

fn v09_check(c: &V09, o: &mut Obs) -> Result<(), String> {
    let Some(bad) = bad_bytes(&c.bad) else {
        o.label("came out well-formed (skipped)");
        return Ok(());
    };
    let mut b = Bench::start(c.mode)?;
    let ids: Vec<String> = c
        .good
        .iter()
        .filter_map(|l| match l {
            Line::Registered(r) => Some(r.clone()),
            _ => None,
        })
        .chain(REGS.iter().map(|s| s.to_string()))
        .chain(identities_in(&bad))
        .collect();
    let st = b.status(&ids)?;
    let mut m = StatusModel::new(&st);
    let mut calls = vec![];
    let mut bytes = vec![];
    for l in &c.good {
        m.apply(l);
        bytes.extend_from_slice(format!("{}\r", l.text()).as_bytes());
    }
    let mut expect = vec![];
    let mut connect = None;
    if c.connecting {
        let s = b.slot();
        b.request(Req::Connect(s, "KC1GSL".into(), "W1AW".into()));
        b.expect_line("CONNECT KC1GSL W1AW")?;
        if c.answered.first() == Some(&true) {
            bytes.extend_from_slice(b"OK\r");
        }
        connect = Some(s);
        o.label("connecting");
    } else {
        for i in 0..c.calls {
            let s = b.call(Cmd::MyCall(vec![format!("K{}AA", i)]));
            b.expect_line(&format!("MYCALL K{}AA", i))?;
            calls.push(s);
        }
        for (s, ok) in calls.iter().zip(&c.answered) {
            bytes.extend_from_slice(if *ok { b"OK\r" } else { b"WRONG\r" });
            expect.push((*s, *ok));
        }
        calls.drain(..expect.len());
        o.label_if(!expect.is_empty(), "replies before the malformed line");
        o.label_if(!calls.is_empty(), "calls outstanding at the malformed line");
    }
    bytes.extend_from_slice(&bad);
    if c.ended {
        bytes.push(b'\r');
        // what follows must not complete a well-formed line: it has no carriage return
        bytes.extend_from_slice(&c.more);
    }
    o.nontrivial_if(true);
    o.label_if(std::str::from_utf8(&bad).is_err(), "not UTF-8");
    o.label_if(c.mode.verbose, "all log levels");
    b.send(&bytes, &c.cuts);
    for (s, ok) in expect {
        let r = b.done(s, "a call returns whose reply came before the malformed line")?;
        if r.is_ok() != ok {
            return Err(format!("a call answered {} before the malformed line returned {:?}", if ok { "OK" } else { "WRONG" }, r));
        }
    }
    if connect.is_none() {
        look(&mut b, &mut m, &ids, false)?;
    }
    b.ping("the runtime answers after malformed input")?;
    let ctl = b.ctl.take().unwrap();
    let _ = ctl.shutdown(Shutdown::Write);
    for s in calls {
        if b.done(s, "an unanswered call fails after malformed input and the end of the control connection")?.is_ok() {
            return Err(format!("malformed line {} made a call succeed", hex(&bad)));
        }
    }
    if let Some(s) = connect {
        if b.done(s, "a connect attempt fails after malformed input and the end of the control connection")?.is_ok() {
            return Err(format!("malformed line {} made a connect attempt succeed", hex(&bad)));
        }
    }
    // when a later call has failed, everything has been processed
    let s = b.call(Cmd::Bandwidth(0));
    if b.done(s, "a later call fails after malformed input and the end of the control connection")?.is_ok() {
        return Err("a call succeeded without a reply".into());
    }
    look(&mut b, &mut m, &ids, true)?;
    b.check_panics()?;
    let s = b.slot();
    b.request(Req::DropTnc(s));
    b.ack(s, "the modem handle is dropped")?;
    b.wait("the control connection is closed", |e| matches!(e, Ev::CtlEnd))?;
    b.check_panics()
}

pub fn v09(ctx: &Ctx) {
    ctx.rule("Non-trivial: the generated line really is malformed (random, mutated or near-miss) and was sent. Distinct histories.");
    ctx.assume("Whether the driver gives up the control connection or goes on after a malformed line is left open.");
    ctx.run("histories", ctx.scale(6000, 12), v09_case, v09_check);
}

// ---- V10 ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct V10 {
    mode: Mode,
    answered: u8,
    outstanding: u8,
    /// A link is live and dropped first; it ends how?
    link: Option<bool>,
    partial: bool,
    noise: Vec<Line>,
    dawdle: bool,
    oks: Vec<bool>,
    cuts: Cuts,
}

fn v10_case() -> impl Strategy<Value = V10> {
    (mode(), 0u8..3, prop_oneof![9 => 0u8..4, 1 => 4u8..60], prop::option::of(any::<bool>()), prop::bool::weighted(0.3), noise(), prop::bool::weighted(0.3), prop::collection::vec(any::<bool>(), 6), cuts())
        .prop_map(|(mode, answered, outstanding, link, partial, noise, dawdle, oks, cuts)| V10 { mode, answered, outstanding, link, partial, noise, dawdle, oks, cuts })
}

fn v10_check(c: &V10, o: &mut Obs) -> Result<(), String> {
    let mut b = Bench::start(c.mode)?;
    for _ in 0..c.answered {
        let s = b.call(Cmd::Compression(0));
        b.expect_line("COMPRESSION OFF")?;
        b.say("OK");
        b.done(s, "the call returns")?.map_err(|e| format!("a call answered OK failed: {}", e))?;
    }
    let mut owed = 0;
    for i in 0..c.outstanding {
        let s = b.call(Cmd::MyCall(vec![format!("K{}AA", i)]));
        b.expect_line(&format!("MYCALL K{}AA", i))?;
        b.request(Req::Abandon(s));
        b.ack(s, "a call is given up")?;
        owed += 1;
    }
    if let Some(down) = c.link {
        if owed == 0 {
            b.establish("KC1GSL", "W1AW")?;
            if down {
                b.say("DISCONNECTED");
                b.ptt_sync()?;
            }
            let s = b.link(LinkOp::Drop);
            b.ack(s, "the link is dropped")?;
            if !down {
                b.expect_line("DISCONNECT")?;
                owed += 1;
            }
        }
    }
    o.nontrivial_if(owed > 0);
    o.label_if(owed > 0, "commands unanswered at the drop");
    if c.partial {
        b.send(b"IAMALIVE\rBUF", &Cuts::default());
    }
    let s = b.slot();
    b.request(Req::DropTnc(s));
    b.ack(s, "the modem handle is dropped")?;
    b.ping("the runtime answers while the handle shuts down")?;
    let mut sent = if c.partial { b"FER 3\r".to_vec() } else { vec![] };
    if owed > 0 {
        b.send(&sent, &Cuts::default());
        sent.clear();
        if c.dawdle {
            b.rt.idle("while commands are unanswered after the handle was dropped")?;
            b.ping("the runtime answers while the handle shuts down")?;
            if b.ctl_closed() {
                return Err("the control connection was closed although commands were unanswered".into());
            }
            o.label("waited before answering");
        }
        for l in &c.noise {
            sent.extend_from_slice(format!("{}\r", l.text()).as_bytes());
        }
        for i in 0..owed {
            if c.dawdle && i + 1 == owed && owed > 1 {
                b.send(&sent, &c.cuts);
                sent.clear();
                std::thread::sleep(Duration::from_millis(2));
                b.ping("the runtime answers while the handle shuts down")?;
                if b.ctl_closed() {
                    return Err("the control connection was closed although a command was unanswered".into());
                }
            }
            sent.extend_from_slice(if c.oks[i % c.oks.len()] { b"OK\r" } else { b"WRONG\r" });
        }
        b.send(&sent, &c.cuts);
    }
    if let Some(l) = b.next_line("the control connection is closed after the handle was dropped")? {
        return Err(format!("the modem received {:?} after the handle was dropped", l));
    }
    b.wait("the data connection is closed after the handle was dropped", |e| matches!(e, Ev::DataEnd))?;
    b.ping("the runtime answers after the handle was dropped")?;
    if c.dawdle {
        b.rt.idle("after the handle was dropped")?;
    }
    b.check_panics()
}

pub fn v10(ctx: &Ctx) {
    ctx.rule("Non-trivial: commands were unanswered when the handle was dropped. Distinct histories.");
    ctx.assume("A stall is no progress for at least 8 s while loopback traffic in the same process flows; a busy loop is 3 s of CPU time without progress.");
    ctx.run("histories", ctx.scale(3000, 12), v10_case, v10_check);
    silence(ctx, &[4]);
}

// ---- long silences ----

/// Nothing comes from the modem for seconds, then all goes on.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Silence {
    mode: Mode,
    what: u8,
    millis: u16,
    ok: bool,
}

fn silence(ctx: &Ctx, kinds: &'static [u8]) {
    let millis = if ctx.thorough() { 20_000u16..62_000 } else { 2_000..4_000 };
    let case = move || (mode(), prop::sample::select(kinds), millis.clone(), any::<bool>()).prop_map(|(mode, what, millis, ok)| Silence { mode, what, millis, ok });
    ctx.run_on("silences", ctx.scale(24, 2), 24, case, silence_check);
}

fn silence_check(c: &Silence, o: &mut Obs) -> Result<(), String> {
    let mut b = Bench::start(c.mode)?;
    o.nontrivial_if(true);
    let wait = || std::thread::sleep(Duration::from_millis(c.millis as u64));
    let (word, up) = (if c.ok { "OK" } else { "WRONG" }, "CONNECTED KC1GSL W1AW-10");
    let connect = |b: &mut Bench| {
        let s = b.slot();
        b.request(Req::Connect(s, "KC1GSL".into(), "W1AW-10".into()));
        s
    };
    let early = "a call or an attempt to connect returned before the modem answered";
    match c.what {
        // calls
        0 => {
            o.label("calls unanswered for long");
            let x = b.call(Cmd::Bandwidth(1));
            let y = b.call(Cmd::Bandwidth(1));
            b.expect_line("BW2300")?;
            b.expect_line("BW2300")?;
            wait();
            if b.is_done(x) || b.is_done(y) {
                return Err(early.into());
            }
            b.say(word);
            b.say(if c.ok { "WRONG" } else { "OK" });
            let ends = (b.done(x, "a call returns after its reply")?.is_ok(), b.done(y, "a call returns after its reply")?.is_ok());
            // which of the two came first is not told apart
            if ends.0 == ends.1 {
                return Err(format!("one of two calls was answered OK, the other WRONG; {} succeeded", if ends.0 { "both" } else { "none" }));
            }
        }
        // connecting
        1 => {
            o.label("connecting for long");
            let s = connect(&mut b);
            b.expect_line("CONNECT KC1GSL W1AW-10")?;
            wait();
            b.say("OK");
            b.ptt_sync()?;
            wait();
            if b.is_done(s) {
                return Err(early.into());
            }
            b.say(if c.ok { up } else { "DISCONNECTED" });
            let r = b.done(s, "connect returns after the modem reported the outcome")?;
            if r.is_ok() != c.ok {
                return Err(format!("connect returned {:?}", r));
            }
            if c.ok {
                let s = b.link(LinkOp::Drop);
                b.ack(s, "the link is dropped")?;
                b.expect_line("DISCONNECT")?;
                b.say("OK");
            }
        }
        // data
        2 => {
            o.label("no data for long");
            b.establish("KC1GSL", "W1AW-10")?;
            for round in 0..2 {
                let s = b.link(LinkOp::Read(10));
                wait();
                if b.is_io_done(s) {
                    return Err("a read of the link ended although neither data nor the link's end had come".into());
                }
                b.deliver(b"x", &Cuts::default())?;
                match b.io(s, "data is read from the link")? {
                    Ok((v, _)) if v == b"x" => {}
                    other => return Err(format!("reading from the link gave {:?}", other)),
                }
                let s = b.link(LinkOp::Write(b"abc".to_vec()));
                b.io(s, "data is written to the link")?.map_err(|e| format!("writing to the link failed: {:?}", e))?;
                let got = b.data_in(3)?;
                if got != b"abc" {
                    return Err(format!("the modem received {:?} in round {}", got, round));
                }
            }
            let s = b.link(LinkOp::Drop);
            b.ack(s, "the link is dropped")?;
            b.expect_line("DISCONNECT")?;
            b.say("OK");
        }
        // a link's end unanswered
        3 => {
            o.label("a link's end unanswered for long");
            b.establish("KC1GSL", "W1AW-10")?;
            let s = b.link(LinkOp::Drop);
            b.ack(s, "the link is dropped")?;
            b.expect_line("DISCONNECT")?;
            let s = connect(&mut b);
            wait();
            if b.is_done(s) {
                return Err(early.into());
            }
            b.say(word);
            b.expect_line("CONNECT KC1GSL W1AW-10")?;
            b.say("OK");
            b.say(up);
            b.done(s, "connect returns")?.map_err(|e| format!("connect failed although the modem reported the connection: {}", e))?;
            let s = b.link(if c.ok { LinkOp::Disconnect } else { LinkOp::Abort });
            b.expect_line(if c.ok { "DISCONNECT" } else { "ABORT" })?;
            wait();
            if b.is_done(s) {
                return Err(early.into());
            }
            b.say("OK");
            b.done(s, "the link is ended")?.map_err(|e| format!("ending the link failed: {}", e))?;
        }
        // the handle dropped
        4 => {
            o.label("commands unanswered for long after the handle was dropped");
            for _ in 0..2 {
                let s = b.call(Cmd::Bandwidth(1));
                b.expect_line("BW2300")?;
                b.request(Req::Abandon(s));
                b.ack(s, "a call is given up")?;
            }
            let s = b.slot();
            b.request(Req::DropTnc(s));
            b.ack(s, "the modem handle is dropped")?;
            for _ in 0..2 {
                wait();
                if b.ctl_closed() {
                    return Err("the control connection was closed although a command was unanswered".into());
                }
                b.say(word);
            }
            if let Some(l) = b.next_line("the control connection is closed after the handle was dropped")? {
                return Err(format!("the modem received {:?} after the handle was dropped", l));
            }
            b.wait("the data connection is closed after the handle was dropped", |e| matches!(e, Ev::DataEnd))?;
            return b.check_panics();
        }
        // the end of the link, long before anyone looks
        _ => {
            o.label("the link's end not looked at for long");
            b.establish("KC1GSL", "W1AW-10")?;
            b.deliver(b"last words", &Cuts::default())?;
            b.say("DISCONNECTED");
            b.ptt_sync()?;
            wait();
            let s = b.link(LinkOp::ReadToEnd(vec![4]));
            match b.io(s, "the link is read to its end")? {
                Ok((v, _)) if v == b"last words" => {}
                other => return Err(format!("reading to the link's end gave {:?}", other)),
            }
            wait();
            let s = b.link(LinkOp::Write(b"abc".to_vec()));
            match b.io(s, "writing to the ended link returns")? {
                Err((ErrorKind::ConnectionAborted, _)) => {}
                other => return Err(format!("writing to the ended link gave {:?}", other)),
            }
            let s = b.link(LinkOp::Drop);
            b.ack(s, "the link is dropped")?;
        }
    }
    let n = b.lines.len();
    b.finish()?;
    if b.lines.len() > n {
        return Err(format!("the modem received {:?} which nothing asked for", &b.lines[n..]));
    }
    Ok(())
}

// ---- V11 ----

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Set {
    Host(bool),
    Control(u8),
    Data(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct V11 {
    mode: Mode,
    base: u16,
    sets: Vec<Set>,
    listen_control: bool,
    listen_data: bool,
    builds: u8,
    v6: bool,
    /// What is not set stays at its default: 127.0.0.1, control port 8300.
    #[serde(default)]
    plain: bool,
}

fn v11_check(c: &V11, o: &mut Obs) -> Result<(), String> {
    // the IPv6 loopback is one address: one such case at a time
    static V6: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _turn = (c.v6 || c.plain).then(|| V6.lock().unwrap_or_else(|e| e.into_inner()));
    // ports are chosen relative to `base` so that neighbouring ports are meaningful
    let offsets = [0u32, 1, 2, 3, 10];
    let port = |i: u8| -> u16 { (c.base as u32 + offsets[i as usize % 5]).min(65535).max(1024) as u16 };
    let mut hosts: Vec<std::net::IpAddr> = vec![fresh_host().into(), fresh_host().into()];
    if c.v6 {
        hosts[1] = std::net::Ipv6Addr::LOCALHOST.into();
    }
    if c.plain {
        hosts[0] = std::net::Ipv4Addr::LOCALHOST.into();
    }
    // model: last setting wins
    let (mut host, mut control, mut data) = (None, None, None);
    for s in &c.sets {
        match s {
            Set::Host(h) => host = Some(hosts[*h as usize]),
            Set::Control(p) => control = Some(port(*p)),
            Set::Data(p) => data = Some(port(*p)),
        }
    }
    let host_set = host.is_some();
    let host = host.unwrap_or(hosts[0]);
    let control_set = control.is_some();
    let control = control.unwrap_or_else(|| if c.plain { 8300 } else { port(0) });
    let mut sets = c.sets.clone();
    o.label_if(c.plain && !host_set, "default host");
    o.label_if(c.plain && !control_set, "default control port");
    o.label_if(c.plain && !control_set && data.is_none(), "default ports");
    if !host_set && !c.plain {
        sets.insert(0, Set::Host(false));
    }
    if !control_set && !c.plain {
        sets.push(Set::Control(0));
    }
    let want_data: Option<u16> = data.or(control.checked_add(1));
    let invalid = want_data.is_none();
    // listeners wherever a wrong address might be tried
    let mut listeners: BTreeMap<(std::net::IpAddr, u16), TcpListener> = BTreeMap::new();
    let mut all: BTreeSet<u16> = (0..5).map(port).collect();
    all.extend([65535, 65534, 8300, 8301].iter());
    all.insert(control.saturating_sub(1).max(1024));
    all.insert(control.saturating_add(1));
    for h in &hosts {
        for p in &all {
            let is_c = *h == host && *p == control;
            let is_d = *h == host && Some(*p) == want_data;
            if is_c && !c.listen_control || is_d && !c.listen_data {
                if TcpListener::bind((*h, *p)).is_err() {
                    o.label("port taken (skipped)");
                    return Ok(());
                }
                continue;
            }
            match TcpListener::bind((*h, *p)) {
                Ok(l) => {
                    l.set_nonblocking(true).unwrap();
                    listeners.insert((*h, *p), l);
                }
                Err(_) if is_c || is_d => {
                    o.label("port taken (skipped)");
                    return Ok(());
                }
                Err(_) => {}
            }
        }
    }
    let (tx, rx) = std::sync::mpsc::channel();
    let builds = c.builds.clamp(1, 3);
    let hosts2 = hosts.clone();
    let base = c.base;
    let rt = Runtime::spawn(c.mode, move || async move {
        let port = |i: u8| -> u16 { (base as u32 + offsets[i as usize % 5]).min(65535).max(1024) as u16 };
        let mut b = VaraTnc::builder();
        for s in &sets {
            match s {
                Set::Host(h) => {
                    b.host(hosts2[*h as usize]);
                }
                Set::Control(p) => {
                    b.control_port(NonZeroU16::new(port(*p)).unwrap());
                }
                Set::Data(p) => {
                    b.data_port(NonZeroU16::new(port(*p)).unwrap());
                }
            }
        }
        let mut held = vec![];
        for _ in 0..builds {
            match b.build().await {
                Ok(t) => {
                    let _ = tx.send(Ok(()));
                    held.push(t);
                }
                Err(e) => {
                    let _ = tx.send(Err((e.kind(), e.to_string())));
                }
            }
        }
        let _ = tx.send(Ok(()));
        tokio::time::sleep(Duration::from_millis(1)).await;
    });
    let p = Patience::new();
    let mut results = vec![];
    while results.len() < builds as usize {
        match rx.recv_timeout(Duration::from_millis(20)) {
            Ok(r) => results.push(r),
            Err(_) => {
                if let Some(p) = rt.panics().first() {
                    return Err(p.clone());
                }
                p.check("building the modem handle returns")?;
            }
        }
    }
    let mut got: BTreeMap<(std::net::IpAddr, u16), u32> = BTreeMap::new();
    let mut collect = || {
        for (k, l) in &listeners {
            while l.accept().is_ok() {
                *got.entry(*k).or_default() += 1;
            }
        }
        got.clone()
    };
    let mut got = collect();
    o.nontrivial_if(true);
    let both_up = c.listen_control && c.listen_data;
    for r in &results {
        match r {
            _ if invalid => match r {
                Err((ErrorKind::InvalidInput, _)) => {}
                other => return Err(format!("control port 65535 without a data port: build returned {:?}, expected an invalid-input error", other)),
            },
            Ok(()) if both_up || (control == want_data.unwrap() && c.listen_control && c.listen_data) => {}
            Ok(()) => return Err("build succeeded although a connection was refused".into()),
            Err((ErrorKind::ConnectionRefused, _)) if !both_up => {}
            Err(e) if both_up => return Err(format!("build failed although both ports accept: {:?}", e)),
            Err(e) => return Err(format!("a refused connection was reported as {:?}", e)),
        }
    }
    if invalid {
        o.label("invalid configuration");
        if !got.is_empty() {
            return Err(format!("invalid configuration, but connections were made to {:?}", got));
        }
        return Ok(());
    }
    let want_data = want_data.unwrap();
    o.label_if(data.is_some(), "data port set");
    o.label_if(!both_up, "refused");
    let mut want: BTreeMap<(std::net::IpAddr, u16), u32> = BTreeMap::new();
    if both_up {
        *want.entry((host, control)).or_default() += builds as u32;
        *want.entry((host, want_data)).or_default() += builds as u32;
        let p = Patience::new();
        while got != want && got.values().sum::<u32>() < 2 * builds as u32 {
            p.check(&format!("connections reach control {} and data {} on {}; so far {:?}", control, want_data, host, got))?;
            std::thread::sleep(Duration::from_millis(1));
            got = collect();
        }
        if got != want {
            return Err(format!("connections were made to {:?}, configured are control {} and data {} on {} ({} builds)", got, control, want_data, host, builds));
        }
    } else if let Some(k) = got.keys().find(|k| k.0 != host || (k.1 != control && k.1 != want_data)) {
        return Err(format!("a connection was made to {:?}, configured are control {} and data {} on {}", k, control, want_data, host));
    }
    Ok(())
}

fn v11_case() -> impl Strategy<Value = V11> {
    let set = prop_oneof![any::<bool>().prop_map(Set::Host), (0u8..5).prop_map(Set::Control), (0u8..5).prop_map(Set::Data)];
    (
        mode(),
        prop_oneof![4 => 1024u16..32000, 1 => Just(65535u16), 1 => Just(65534u16), 1 => Just(65532u16), 1 => Just(8300u16), 1 => Just(8299u16)],
        prop::collection::vec(set, 0..6),
        prop::bool::weighted(0.85),
        prop::bool::weighted(0.85),
        1u8..3,
        prop::bool::weighted(0.1),
        prop::bool::weighted(0.2),
    )
        .prop_map(|(mode, base, sets, listen_control, listen_data, builds, v6, plain)| V11 { mode, base, sets, listen_control, listen_data, builds, v6, plain })
}

pub fn v11(ctx: &Ctx) {
    ctx.rule("Non-trivial: every case that got its ports: listeners on the configured, the neighbouring and the default ports record all connections. Distinct configurations.");
    ctx.run("configurations", ctx.scale(1500, 10), v11_case, v11_check);
}
