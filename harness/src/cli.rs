//! M01–M04: the built program between a scripted modem on loopback, a pseudo-terminal as the rig
//! and pipes as the operator.
use crate::bench::{metronome, accept, callsign, cuts, fresh_host, listen_pair, outq, reset, send_cut, Cuts, Patience};
use crate::engine::*;
use crate::station::is_identity;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fs::File;
use std::io::{Read, Write};
use std::net::{Ipv4Addr, Shutdown, TcpListener, TcpStream};
use std::os::unix::fs::OpenOptionsExt;
use std::os::unix::io::{AsRawFd, FromRawFd};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, Command, ExitStatus, Stdio};
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

fn program() -> PathBuf {
    match std::env::var_os("PLV_PROGRAM") {
        Some(p) => p.into(),
        None => PathBuf::from(VERIF).join("target/cli/debug/plusendi"),
    }
}

fn ident() -> &'static [u8] {
    static I: OnceLock<Vec<u8>> = OnceLock::new();
    I.get_or_init(|| {
        let toml = std::fs::read_to_string("/repo/Cargo.toml").expect("Cargo.toml");
        let version = toml.lines().find_map(|l| l.strip_prefix("version = \"")).and_then(|l| l.strip_suffix('"')).expect("version");
        format!("[plusendi-{}-B2FWIHJM$]\rFF\r", version).into_bytes()
    })
}

/// Collects what arrives from one source.
#[derive(Clone)]
struct Tap(Arc<Mutex<(Vec<u8>, bool)>>);

impl Tap {
    fn new(mut from: impl Read + Send + 'static) -> Tap {
        let shared = Arc::new(Mutex::new((Vec::new(), false)));
        let s = shared.clone();
        std::thread::Builder::new()
            .name("tap".into())
            .stack_size(256 << 10)
            .spawn(move || {
                let mut buf = vec![0; 32 << 10];
                loop {
                    match from.read(&mut buf) {
                        Ok(0) | Err(_) => break,
                        Ok(n) => s.lock().unwrap().0.extend_from_slice(&buf[..n]),
                    }
                }
                s.lock().unwrap().1 = true;
            })
            .expect("thread");
        Tap(shared)
    }
    fn bytes(&self) -> Vec<u8> {
        self.0.lock().unwrap().0.clone()
    }
    fn len(&self) -> usize {
        self.0.lock().unwrap().0.len()
    }
    fn ended(&self) -> bool {
        self.0.lock().unwrap().1
    }
}

fn pause() {
    std::thread::sleep(Duration::from_micros(200))
}

/// A pseudo-terminal in raw mode. Holding the slave open keeps the master readable.
struct Pty {
    master: File,
    _slave: File,
    path: String,
    tap: Tap,
}

impl Pty {
    fn open() -> Result<Pty, String> {
        let inconclusive = |e: std::io::Error| format!("{}: pty: {}", INCONCLUSIVE, e);
        let master = std::fs::OpenOptions::new().read(true).write(true).custom_flags(libc::O_NOCTTY).open("/dev/ptmx").map_err(inconclusive)?;
        let fd = master.as_raw_fd();
        let path = unsafe {
            let mut name = [0 as libc::c_char; 64];
            if libc::grantpt(fd) != 0 || libc::unlockpt(fd) != 0 || libc::ptsname_r(fd, name.as_mut_ptr(), name.len()) != 0 {
                return Err(inconclusive(std::io::Error::last_os_error()));
            }
            std::ffi::CStr::from_ptr(name.as_ptr()).to_string_lossy().into_owned()
        };
        let slave = std::fs::OpenOptions::new().read(true).write(true).custom_flags(libc::O_NOCTTY).open(&path).map_err(inconclusive)?;
        unsafe {
            let mut t: libc::termios = std::mem::zeroed();
            libc::tcgetattr(slave.as_raw_fd(), &mut t);
            libc::cfmakeraw(&mut t);
            libc::tcsetattr(slave.as_raw_fd(), libc::TCSANOW, &t);
        }
        let reader = unsafe { File::from_raw_fd(libc::fcntl(fd, libc::F_DUPFD_CLOEXEC, 3)) };
        Ok(Pty { master, _slave: slave, path, tap: Tap::new(reader) })
    }
}

/// An empty directory for the program to run in, removed with the process's last use.
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        static N: AtomicU32 = AtomicU32::new(0);
        let p = std::env::temp_dir().join(format!("plv-cli-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir(&self.0);
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
struct Setup {
    verbose: bool,
    mine: String,
    target: String,
    /// How options are spelled.
    style: u8,
}

fn setup() -> impl Strategy<Value = Setup> {
    let cased = || (callsign(), 0u8..4).prop_map(|(c, how)| match how {
        0 => c.to_ascii_lowercase(),
        1 => c.chars().enumerate().map(|(i, x)| if i % 2 == 0 { x.to_ascii_lowercase() } else { x }).collect(),
        _ => c,
    });
    (prop::bool::weighted(0.4), cased(), cased(), any::<u8>()).prop_map(|(verbose, mine, target, style)| Setup { verbose, mine, target, style })
}

struct Session {
    child: Child,
    status: Option<ExitStatus>,
    stdin: Option<ChildStdin>,
    out: Tap,
    err: Tap,
    rig: Pty,
    listeners: Option<(TcpListener, TcpListener)>,
    ctl: Option<TcpStream>,
    ctl_tap: Option<Tap>,
    ctl_seen: usize,
    data: Option<TcpStream>,
    data_tap: Option<Tap>,
    _dir: Scratch,
}

struct Where {
    host: Ipv4Addr,
    control: u16,
    data: u16,
    rig: Option<String>,
}

impl Session {
    fn start(s: &Setup) -> Result<Session, String> {
        let (host, c, d) = listen_pair()?;
        let w = Where { host, control: c.local_addr().unwrap().port(), data: d.local_addr().unwrap().port(), rig: None };
        Session::launch(s, w, Some((c, d)))
    }
    fn launch(s: &Setup, w: Where, listeners: Option<(TcpListener, TcpListener)>) -> Result<Session, String> {
        let rig = Pty::open()?;
        let dir = Scratch::new();
        let mut c = Command::new(program());
        c.env_clear().env("PATH", "/usr/bin:/bin").current_dir(&dir.0);
        let de = |c: &mut Command| match s.style % 3 {
            0 => drop(c.args(["--de", &s.mine])),
            1 => drop(c.args(["-d", &s.mine])),
            _ => drop(c.arg(format!("--de={}", s.mine))),
        };
        if s.style & 4 == 0 {
            de(&mut c);
            c.arg(&s.target);
        } else {
            c.arg(&s.target);
            de(&mut c);
        }
        c.arg(format!("--modem-address={}", w.host)).args(["--modem-control-port", &w.control.to_string()]);
        c.args(["--modem-data-port", &w.data.to_string()]);
        c.args(["--rig-control", w.rig.as_ref().unwrap_or(&rig.path)]);
        c.args(["--rig-baud", ["4800", "9600", "19200", "38400"][(s.style as usize >> 3) % 4]]);
        let log = if s.verbose { "trace" } else { "off" };
        if s.style & 32 == 0 {
            c.args(["--log", log]);
        } else {
            c.env("RUST_LOG", log);
        }
        let mut p = Session::spawn(c, rig, dir)?;
        p.listeners = listeners;
        Ok(p)
    }
    fn spawn(mut c: Command, rig: Pty, dir: Scratch) -> Result<Session, String> {
        c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
        unsafe {
            c.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let mut child = c.spawn().map_err(|e| format!("{}: cannot start the program: {}", INCONCLUSIVE, e))?;
        let out = Tap::new(child.stdout.take().unwrap());
        let err = Tap::new(child.stderr.take().unwrap());
        let stdin = child.stdin.take();
        Ok(Session { child, status: None, stdin, out, err, rig, listeners: None, ctl: None, ctl_tap: None, ctl_seen: 0, data: None, data_tap: None, _dir: dir })
    }

    fn exited(&mut self) -> Option<ExitStatus> {
        if self.status.is_none() {
            self.status = self.child.try_wait().ok().flatten();
        }
        self.status
    }
    fn fate(&mut self) -> String {
        match self.exited() {
            Some(st) => format!("the program has ended ({}): {}", st, String::from_utf8_lossy(&self.err.bytes()).lines().take(6).collect::<Vec<_>>().join(" | ")),
            None => "the program is running".into(),
        }
    }
    /// Waits until `ready` gives a value.
    fn wait<T>(&mut self, what: &str, mut ready: impl FnMut(&mut Self) -> Option<Result<T, String>>) -> Result<T, String> {
        let p = Patience::new();
        let mut gone = None;
        loop {
            if let Some(r) = ready(self) {
                return r;
            }
            if self.exited().is_some() {
                let (since, ticks) = *gone.get_or_insert_with(|| (Instant::now(), metronome()));
                // everything the program has sent has arrived by then
                if since.elapsed() > Duration::from_secs(2) && metronome() - ticks > 300 {
                    return Err(format!("waiting for: {}; {}", what, self.fate()));
                }
            }
            if let Err(e) = p.check(what) {
                return Err(if e.starts_with(INCONCLUSIVE) { e } else { format!("{}; {}", e, self.fate()) });
            }
            pause();
        }
    }
    fn connect_modem(&mut self) -> Result<(), String> {
        let (c, d) = self.listeners.take().unwrap();
        let ctl = accept(&c, "the program connects to the control port").map_err(|e| format!("{}; {}", e, self.fate()))?;
        let data = accept(&d, "the program connects to the data port").map_err(|e| format!("{}; {}", e, self.fate()))?;
        self.attach(ctl, data);
        Ok(())
    }
    fn attach(&mut self, ctl: TcpStream, data: TcpStream) {
        self.ctl_tap = Some(Tap::new(ctl.try_clone().unwrap()));
        self.data_tap = Some(Tap::new(data.try_clone().unwrap()));
        self.ctl = Some(ctl);
        self.data = Some(data);
    }
    /// The next command line; nothing may follow it.
    fn expect_line(&mut self, want: &str) -> Result<(), String> {
        let want = format!("{}\r", want);
        let got = self.wait(&format!("the modem receives {:?}", want), |s| {
            let all = s.ctl_tap.as_ref().unwrap().bytes();
            let fresh = &all[s.ctl_seen..];
            (fresh.contains(&b'\r') || !want.as_bytes().starts_with(fresh)).then(|| Ok(fresh.to_vec()))
        })?;
        if got != want.as_bytes() {
            return Err(format!("the modem receives {:?}, expected is {:?}", String::from_utf8_lossy(&got), want));
        }
        self.ctl_seen += got.len();
        Ok(())
    }
    fn commands(&self) -> Vec<String> {
        let all = self.ctl_tap.as_ref().map(|t| t.bytes()).unwrap_or_default();
        all.split(|b| *b == b'\r').filter(|l| !l.is_empty()).map(|l| String::from_utf8_lossy(l).into_owned()).collect()
    }
    fn say(&mut self, text: &[u8], c: &Cuts) {
        if let Some(s) = &mut self.ctl {
            let _ = send_cut(s, text, c);
        }
    }
    fn deliver(&mut self, bytes: &[u8], c: &Cuts) -> Result<(), String> {
        let Some(s) = &mut self.data else { return Ok(()) };
        if send_cut(s, bytes, c).is_err() {
            return Err(format!("the program closed the data connection; {}", self.fate()));
        }
        self.wait("the program's side takes the data", |s| (outq(s.data.as_ref().unwrap()) == 0).then_some(Ok(())))
    }
    fn type_in(&mut self, text: &str) {
        if let Some(i) = &mut self.stdin {
            let _ = i.write_all(text.as_bytes());
        }
    }

    fn enter(&mut self, text: &str) {
        if let Some(i) = &mut self.stdin {
            let _ = i.write_all(text.as_bytes()).and_then(|_| i.write_all(b"\n")).and_then(|_| i.flush());
        }
    }
    fn data_in(&self) -> Vec<u8> {
        self.data_tap.as_ref().map(|t| t.bytes()).unwrap_or_default()
    }
    /// What the program printed, without log lines.
    fn printed(&self, verbose: bool) -> Vec<u8> {
        let all = self.out.bytes();
        if !verbose {
            return all;
        }
        let mut v = vec![];
        for l in all.split_inclusive(|b| *b == b'\n') {
            if l.ends_with(b"\n") && !l.starts_with(b"\x1b[2m") {
                v.extend_from_slice(l);
            }
        }
        v
    }
    fn expect_printed(&mut self, verbose: bool, want: &[u8]) -> Result<(), String> {
        let wrong = |got: &[u8]| format!("printed is {:?}, expected {:?}", String::from_utf8_lossy(got), String::from_utf8_lossy(want));
        let r = self.wait("the remote's lines are printed", |s| {
            let got = s.printed(verbose);
            if !want.starts_with(&got) {
                return Some(Err(wrong(&got)));
            }
            (got.len() == want.len()).then_some(Ok(()))
        });
        match r {
            Err(e) if e.starts_with("stalled") || e.starts_with("waiting") => Err(format!("{}; {}", wrong(&self.printed(verbose)), e)),
            r => r,
        }
    }
    fn nothing_sent(&self, when: &str) -> Result<(), String> {
        let d = self.data_in();
        if !d.is_empty() {
            return Err(format!("{} the link carries {:?}", when, String::from_utf8_lossy(&d)));
        }
        Ok(())
    }
    /// The setup commands, each answered OK, up to and including CONNECT, which is left unanswered.
    fn to_connect(&mut self, s: &Setup, noise: &Noise) -> Result<(), String> {
        self.connect_modem()?;
        for line in script(s).iter().take(3) {
            self.expect_line(line)?;
            if noise.dawdle {
                std::thread::sleep(Duration::from_millis(2));
                if self.ctl_tap.as_ref().unwrap().len() > self.ctl_seen {
                    return Err(format!("{:?} follows {:?} before the modem answered", self.commands().last(), line));
                }
            }
            self.say(&noise.around("OK\r"), &noise.cuts);
        }
        self.expect_line(&script(s)[3])
    }
    fn to_link(&mut self, s: &Setup, noise: &Noise) -> Result<(), String> {
        self.to_connect(s, noise)?;
        self.say(&noise.around("OK\r"), &noise.cuts);
        let report = format!("CONNECTED {} {}\r", s.mine.to_ascii_uppercase(), s.target.to_ascii_uppercase());
        self.say(&noise.around(&report), &noise.cuts);
        Ok(())
    }
    fn exit(&mut self, what: &str) -> Result<ExitStatus, String> {
        self.wait(what, |s| s.exited().map(Ok))
    }
    fn panicked(&self) -> Result<(), String> {
        let e = String::from_utf8_lossy(&self.err.bytes()).into_owned();
        if e.contains("panicked") {
            return Err(format!("the program panics: {}", e.lines().take(6).collect::<Vec<_>>().join(" | ")));
        }
        Ok(())
    }
}

impl Drop for Session {
    fn drop(&mut self) {
        self.stdin = None;
        for s in [&self.ctl, &self.data].into_iter().flatten() {
            let _ = s.shutdown(Shutdown::Both);
        }
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn script(s: &Setup) -> [String; 4] {
    let (mine, target) = (s.mine.to_ascii_uppercase(), s.target.to_ascii_uppercase());
    [format!("MYCALL {}", mine), "COMPRESSION TEXT".into(), "BW2300".into(), format!("CONNECT {} {}", mine, target)]
}

/// Status lines around the modem's replies, and how the control stream is cut.
#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
struct Noise {
    before: Vec<u8>,
    after: Vec<u8>,
    cuts: Cuts,
    dawdle: bool,
}

const STATUS: [&str; 6] = ["IAMALIVE\r", "BUFFER 0\r", "BUFFER 1234\r", "BUSY ON\r", "BUSY OFF\r", "REGISTERED W1AW\r"];

impl Noise {
    fn around(&self, line: &str) -> Vec<u8> {
        let pick = |v: &Vec<u8>| v.iter().map(|i| STATUS[*i as usize % STATUS.len()]).collect::<String>();
        format!("{}{}{}", pick(&self.before), line, pick(&self.after)).into_bytes()
    }
}

fn noise() -> impl Strategy<Value = Noise> {
    let some = || prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(0u8..6, 1..4)];
    (some(), some(), cuts(), prop::bool::weighted(0.2)).prop_map(|(before, after, cuts, dawdle)| Noise { before, after, cuts, dawdle })
}

// ---- M01 ----

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
struct Script {
    setup: Setup,
    noise: Noise,
    cuts: Cuts,
    /// Lines before the prompt; without it, its carriage return, and never ending in '>'.
    before: Vec<Vec<u8>>,
    prompt: Vec<u8>,
    /// Lines sent together with the prompt.
    along: Vec<Vec<u8>>,
    /// Lines sent after the prompt was printed, before Enter.
    meanwhile: Vec<Vec<u8>>,
    /// Lines sent after the identification.
    after: Vec<Vec<u8>>,
    /// An incomplete line at the end.
    tail: Vec<u8>,
    /// Enter is pressed before the prompt.
    early: bool,
    typed: String,
    /// Milliseconds of nothing before each stage.
    #[serde(default)]
    slow: u16,
    rig_noise: Vec<u8>,
    /// The lines before the prompt come before the modem reports the connection.
    hasty: bool,
}

fn clean(v: &[u8], verbose: bool) -> Vec<u8> {
    v.iter().filter(|b| **b != b'\r').map(|b| if verbose && (*b == b'\n' || *b == 0x1b) { b'.' } else { *b }).collect()
}

fn print_of(lines: &[Vec<u8>]) -> Vec<u8> {
    lines.iter().map(|l| format!("{}\n", String::from_utf8_lossy(l)).into_bytes()).collect::<Vec<_>>().concat()
}

fn wire_of(lines: &[Vec<u8>]) -> Vec<u8> {
    lines.iter().flat_map(|l| l.iter().copied().chain(Some(b'\r'))).collect()
}

fn m01_case(c: &Script, obs: &mut Obs) -> Result<(), String> {
    let s = &c.setup;
    let tidy = |v: &Vec<Vec<u8>>| v.iter().map(|l| clean(l, s.verbose)).collect::<Vec<_>>();
    let mut before = tidy(&c.before);
    for l in &mut before {
        if l.ends_with(b">") {
            l.push(b'.');
        }
    }
    let mut prompt = clean(&c.prompt, s.verbose);
    prompt.push(b'>');
    let (along, meanwhile, after) = (tidy(&c.along), tidy(&c.meanwhile), tidy(&c.after));
    let all: Vec<&Vec<u8>> = before.iter().chain(&along).chain(&meanwhile).chain(&after).collect();
    obs.label_if(s.verbose, "all logging on");
    obs.label_if(all.iter().any(|l| l.is_empty()), "empty line");
    obs.label_if(all.iter().any(|l| std::str::from_utf8(l).is_err()), "line that is not UTF-8");
    obs.label_if(!along.is_empty(), "lines right after the prompt");
    obs.label_if(!meanwhile.is_empty(), "lines while the operator is waited for");
    obs.label_if(c.early, "Enter before the prompt");
    obs.label_if(!c.cuts.at.is_empty(), "cut into segments");
    obs.nontrivial_if(!all.is_empty());
    obs.label_if(c.typed.len() > 8192, "much typed");
    let stage = |p: &mut Session| -> Result<(), String> {
        if c.slow > 0 {
            std::thread::sleep(Duration::from_millis(c.slow as u64));
            if p.exited().is_some() {
                return Err(format!("after {} ms in which nothing happened {}", c.slow, p.fate()));
            }
        }
        Ok(())
    };
    let mut p = Session::start(s)?;
    let _ = p.rig.master.write_all(&c.rig_noise);
    if c.early {
        p.enter(&c.typed);
    }
    stage(&mut p)?;
    if c.hasty {
        obs.label("lines before the connection is reported");
        p.to_connect(s, &c.noise)?;
        p.deliver(&wire_of(&before), &c.cuts)?;
        p.say(&c.noise.around("OK\r"), &c.noise.cuts);
        p.say(&c.noise.around(&format!("CONNECTED {} {}\r", s.mine.to_ascii_uppercase(), s.target.to_ascii_uppercase())), &c.noise.cuts);
    } else {
        p.to_link(s, &c.noise)?;
    }
    stage(&mut p)?;
    let mut lines = before.clone();
    if !c.hasty && c.early {
        p.deliver(&wire_of(&before), &c.cuts)?;
    }
    if c.early {
        p.expect_printed(s.verbose, &print_of(&lines))?;
        if c.noise.dawdle {
            std::thread::sleep(Duration::from_millis(3));
        }
        p.nothing_sent("before the prompt")?;
    }
    lines.push(prompt.clone());
    let head = if c.hasty || c.early { vec![prompt] } else { lines.clone() };
    let mut wire = wire_of(&head);
    wire.extend(wire_of(&along));
    p.deliver(&wire, &c.cuts)?;
    if !c.early {
        // lines that follow the prompt may be printed before or after Enter
        let (least, most) = (print_of(&lines), print_of(&[lines.clone(), along.clone()].concat()));
        p.wait("the prompt is printed", |p| {
            let got = p.printed(s.verbose);
            if !most.starts_with(&got) {
                return Some(Err(format!("printed is {:?}, expected {:?}", String::from_utf8_lossy(&got), String::from_utf8_lossy(&most))));
            }
            got.starts_with(&least).then_some(Ok(()))
        })?;
        p.deliver(&wire_of(&meanwhile), &c.cuts)?;
        // what is typed does not count before Enter
        p.type_in(&c.typed);
        stage(&mut p)?;
        std::thread::sleep(Duration::from_millis(if c.noise.dawdle { 5 } else { 1 }));
        p.nothing_sent("before Enter")?;
        p.enter("");
    } else {
        p.deliver(&wire_of(&meanwhile), &c.cuts)?;
    }
    p.wait("the identification is sent", |p| {
        let d = p.data_in();
        if !ident().starts_with(&d) {
            return Some(Err(format!("the link carries {:?}", String::from_utf8_lossy(&d))));
        }
        (d.len() == ident().len()).then_some(Ok(()))
    })?;
    lines.extend(along);
    lines.extend(meanwhile);
    lines.extend(after.clone());
    stage(&mut p)?;
    let mut wire = wire_of(&after);
    wire.extend(clean(&c.tail, s.verbose));
    p.deliver(&wire, &c.cuts)?;
    stage(&mut p)?;
    p.say(&c.noise.around("DISCONNECTED\r"), &c.noise.cuts);
    p.expect_printed(s.verbose, &print_of(&lines))?;
    if c.noise.dawdle || c.typed.len() > 20 {
        std::thread::sleep(Duration::from_millis(10));
        if p.exited().is_some() {
            return Err(format!("before the last Enter {}", p.fate()));
        }
    }
    stage(&mut p)?;
    p.enter("");
    let status = p.exit("the program ends after the last Enter")?;
    p.panicked()?;
    if !status.success() {
        return Err(format!("after a complete session {}", p.fate()));
    }
    p.wait("the connections are closed", |p| (p.ctl_tap.as_ref().unwrap().ended() && p.data_tap.as_ref().unwrap().ended() && p.out.ended()).then_some(Ok(())))?;
    if p.data_in() != ident() {
        return Err(format!("the link carries {:?}", String::from_utf8_lossy(&p.data_in())));
    }
    if p.commands() != script(s) {
        return Err(format!("the modem receives {:?}", p.commands()));
    }
    let got = p.printed(s.verbose);
    if got != print_of(&lines) {
        return Err(format!("printed is {:?}, expected {:?}", String::from_utf8_lossy(&got), String::from_utf8_lossy(&print_of(&lines))));
    }
    Ok(())
}

fn line() -> impl Strategy<Value = Vec<u8>> {
    prop_oneof![
        3 => prop::sample::select(vec!["[WL2K-5.0-B2FWIHJM$]", ";PQ: 12345678", "*** Connected", "CMS> ", ";FW: W1AW", "FF", "FQ", "FC EM ABCDEFGHIJKL 100 90 0", "OK", "DISCONNECTED", "CMS>"]).prop_map(|s| s.as_bytes().to_vec()),
        1 => Just(vec![]),
        2 => prop::collection::vec(any::<u8>(), 0..20),
        2 => "[ -~]{0,30}".prop_map(|s| s.into_bytes()),
        1 => "\\PC{0,10}".prop_map(|s| s.into_bytes()),
        1 => (any::<u8>(), 60usize..3000).prop_map(|(b, n)| vec![b; n]),
    ]
}

fn lines(n: usize) -> impl Strategy<Value = Vec<Vec<u8>>> {
    let short = || prop_oneof![1 => Just(vec![]), 4 => "[ -~]{0,12}".prop_map(|s| s.into_bytes())];
    let long = (b' '..=b'~', 9_000usize..90_000).prop_map(|(b, n)| vec![vec![b; n]]);
    prop_oneof![60 => prop::collection::vec(line(), 0..n), 1 => prop::collection::vec(short(), 50..400), 1 => long]
}

const BED: &str = "loopback sockets, a pseudo-terminal and pipes stand in for the modem, the rig and the operator's terminal";

pub fn m01(ctx: &Ctx) {
    ctx.rule("Sessions of the built program: callsigns in any case, remote lines of any bytes cut into segments, status lines around every reply, Enter before or after the prompt; non-trivial = at least one remote line besides the prompt.");
    ctx.assume(BED);
    let case = || {
        let flags = (prop::bool::weighted(0.25), prop::bool::weighted(0.2), prop_oneof![8 => "[a-z]{0,6}", 2 => "[ -~]{20,300}", 1 => (b' '..=b'~', 5_000usize..20_000).prop_map(|(b, n)| String::from_utf8(vec![b; n]).unwrap())]);
        let more = (prop_oneof![3 => Just(vec![]), 1 => lines(3)], prop_oneof![3 => Just(vec![]), 1 => lines(3)]);
        let ends = (prop_oneof![2 => Just(vec![]), 1 => line()], prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(any::<u8>(), 0..60)]);
        (setup(), noise(), cuts(), lines(5), line(), more, lines(5), ends, flags).prop_map(|(setup, noise, cuts, before, prompt, (along, meanwhile), after, (tail, rig_noise), (early, hasty, typed))| Script {
            setup, noise, cuts, before, prompt, along, meanwhile, after, tail, early, typed, rig_noise, hasty, slow: 0,
        })
    };
    ctx.run("sessions", ctx.scale(2_000, 12), case, m01_case);
    let slow = if ctx.thorough() { 5_000u16..40_000 } else { 1_000..2_500 };
    ctx.run_on("slow-sessions", ctx.scale(24, 2), 24, || (case(), slow.clone()).prop_map(|(c, slow)| Script { slow, ..c }), m01_case);
}

// ---- M02 ----

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Talk {
    /// One request; waits for the rig to receive it.
    One(bool),
    /// Requests one right after the other.
    Burst(Vec<bool>),
    /// The rig sends this.
    Rig(Vec<u8>),
    /// Other status lines.
    Status(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
struct Keying {
    setup: Setup,
    noise: Noise,
    /// While CONNECT is unanswered, on the link, after the prompt, after the identification.
    stages: [Vec<Talk>; 4],
}

struct Rig {
    asked: Vec<bool>,
}

impl Rig {
    /// What the rig has received, as requests.
    fn heard(p: &Session) -> Result<Vec<bool>, String> {
        let all = p.rig.tap.bytes();
        let mut v = vec![];
        for c in all.chunks(3) {
            match c {
                b"TX;" => v.push(true),
                b"RX;" => v.push(false),
                x if b"TX;".starts_with(x) || b"RX;".starts_with(x) => break,
                _ => return Err(format!("the rig received {:?}", String::from_utf8_lossy(&all))),
            }
        }
        Ok(v)
    }
    fn in_order(&self, heard: &[bool]) -> Result<(), String> {
        let mut rest = self.asked.iter();
        if heard.iter().all(|h| rest.any(|a| a == h)) {
            return Ok(());
        }
        Err(format!("the rig received {:?}, the modem asked for {:?} (true: transmit)", heard, self.asked))
    }
    fn stage(&mut self, p: &mut Session, talks: &[Talk], cuts: &Cuts) -> Result<(), String> {
        for t in talks {
            match t {
                Talk::Rig(b) => drop(p.rig.master.write_all(b)),
                Talk::Status(v) => {
                    let text: String = v.iter().map(|i| STATUS[*i as usize % STATUS.len()]).collect();
                    p.say(text.as_bytes(), cuts);
                }
                Talk::One(_) | Talk::Burst(_) => {
                    let one = [false];
                    let asks = match t {
                        Talk::One(x) => vec![*x],
                        Talk::Burst(v) => v.clone(),
                        _ => one.to_vec(),
                    };
                    if asks.is_empty() {
                        continue;
                    }
                    let before = Rig::heard(p)?.len();
                    let text: String = asks.iter().map(|a| if *a { "PTT ON\r" } else { "PTT OFF\r" }).collect();
                    self.asked.extend(&asks);
                    p.say(text.as_bytes(), cuts);
                    let last = *asks.last().unwrap();
                    let me = &*self;
                    let r = p.wait("the rig receives the modem's latest request", |p| match Rig::heard(p) {
                        Err(e) => Some(Err(e)),
                        Ok(h) => {
                            if let Err(e) = me.in_order(&h) {
                                return Some(Err(e));
                            }
                            (h.len() > before && *h.last().unwrap() == last).then_some(Ok(()))
                        }
                    });
                    r.map_err(|e| if e.starts_with("stalled") { format!("{}; the rig received {:?}, the modem asked for {:?} (true: transmit)", e, Rig::heard(p), self.asked) } else { e })?;
                }
            }
        }
        Ok(())
    }
}

fn m02_case(c: &Keying, obs: &mut Obs) -> Result<(), String> {
    let s = &c.setup;
    let count: usize = c.stages.iter().flatten().map(|t| match t { Talk::One(_) => 1, Talk::Burst(v) => v.len(), _ => 0 }).sum();
    obs.label_if(s.verbose, "all logging on");
    obs.label_if(c.stages.iter().flatten().any(|t| matches!(t, Talk::Burst(v) if v.len() > 1)), "burst of requests");
    obs.label_if(c.stages.iter().flatten().any(|t| matches!(t, Talk::Rig(v) if !v.is_empty())), "rig output");
    obs.nontrivial_if(count > 0);
    obs.add("requests", count as u64);
    let mut p = Session::start(s)?;
    let mut rig = Rig { asked: vec![] };
    p.to_connect(s, &c.noise)?;
    rig.stage(&mut p, &c.stages[0], &c.noise.cuts)?;
    p.say(&c.noise.around("OK\r"), &c.noise.cuts);
    p.say(format!("CONNECTED {} {}\r", s.mine.to_ascii_uppercase(), s.target.to_ascii_uppercase()).as_bytes(), &c.noise.cuts);
    rig.stage(&mut p, &c.stages[1], &c.noise.cuts)?;
    p.deliver(b"hello\rCMS>\r", &c.noise.cuts)?;
    rig.stage(&mut p, &c.stages[2], &c.noise.cuts)?;
    p.enter("");
    rig.stage(&mut p, &c.stages[3], &c.noise.cuts)?;
    // the requests that came last are all there is
    let last = !rig.asked.last().copied().unwrap_or(true);
    rig.stage(&mut p, &[Talk::One(last)], &c.noise.cuts)?;
    let heard = loop {
        // commands for an earlier burst may still be on their way
        let n = Rig::heard(&p)?.len();
        std::thread::sleep(Duration::from_millis(if c.noise.dawdle { 4 } else { 1 }));
        let me = &rig;
        p.wait("the last command the rig receives is the modem's latest request", |p| match Rig::heard(p) {
            Err(e) => Some(Err(e)),
            Ok(h) => match me.in_order(&h) {
                Err(e) => Some(Err(e)),
                Ok(()) => (h.last() == Some(&last)).then_some(Ok(())),
            },
        })
        .map_err(|e| format!("{}; the rig received {:?}, the modem's latest request is {:?} (true: transmit)", e, Rig::heard(&p), last))?;
        let heard = Rig::heard(&p)?;
        if heard.len() == n {
            break heard;
        }
    };
    // requests that were waited for cannot have been passed over
    if c.stages.iter().flatten().all(|t| !matches!(t, Talk::Burst(_))) && heard != rig.asked {
        return Err(format!("the rig received {:?}, the modem asked for {:?} (true: transmit)", heard, rig.asked));
    }
    p.panicked()
}

/// The same burst again and again, each closely followed: a request passed on twice is one too many.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
struct Repeats {
    setup: Setup,
    /// The last of a burst, asked for once in it.
    last: bool,
    /// How many others come before it.
    before: u8,
    times: u16,
    /// Pauses between the requests of a burst in microseconds, used in turn; empty: one segment.
    gaps: Vec<u8>,
}

fn m02_repeats(c: &Repeats, obs: &mut Obs) -> Result<(), String> {
    let s = &c.setup;
    let mut p = Session::start(s)?;
    let mut rig = Rig { asked: vec![] };
    p.to_connect(s, &Noise::default())?;
    let (last, other) = if c.last { ("PTT ON\r", "PTT OFF\r") } else { ("PTT OFF\r", "PTT ON\r") };
    let mut gaps = c.gaps.iter().cycle();
    obs.nontrivial_if(c.before > 0);
    obs.add("bursts", c.times as u64);
    for _ in 0..c.times {
        let before = Rig::heard(&p)?.len();
        rig.asked.extend(std::iter::repeat(!c.last).take(c.before as usize));
        rig.asked.push(c.last);
        if c.gaps.is_empty() {
            p.say(format!("{}{}", other.repeat(c.before as usize), last).as_bytes(), &Cuts::default());
        } else {
            for i in 0..=c.before {
                p.say(if i == c.before { last } else { other }.as_bytes(), &Cuts::default());
                let gap = Duration::from_micros(*gaps.next().unwrap() as u64);
                let at = Instant::now();
                while at.elapsed() < gap {
                    std::hint::spin_loop();
                }
            }
        }
        p.wait("the rig receives the modem's latest request", |p| match Rig::heard(p) {
            Err(e) => Some(Err(e)),
            Ok(h) => match rig.in_order(&h) {
                Err(e) => Some(Err(e)),
                Ok(()) => (h.len() > before && h.last() == Some(&c.last)).then_some(Ok(())),
            },
        })?;
    }
    p.panicked()
}

pub fn m02(ctx: &Ctx) {
    ctx.rule("Sessions of the built program with single and rapid transmit/receive requests at every stage from CONNECT on, mixed with other status lines and with rig output of any bytes; non-trivial = at least one request.");
    ctx.assume(BED);
    let talk = || {
        let t = prop_oneof![
            4 => any::<bool>().prop_map(Talk::One),
            3 => prop::collection::vec(any::<bool>(), 1..8).prop_map(Talk::Burst),
            1 => prop::collection::vec(any::<bool>(), 8..60).prop_map(Talk::Burst),
            2 => prop::collection::vec(prop_oneof![any::<u8>(), Just(b';')], 0..60).prop_map(Talk::Rig),
            1 => prop::sample::select(vec![";", "IF;", "?;;", "TX;RX;"]).prop_map(|s| Talk::Rig(s.into())),
            1 => prop::collection::vec(0u8..6, 1..4).prop_map(Talk::Status),
        ];
        prop_oneof![1 => Just(vec![]), 3 => prop::collection::vec(t, 0..6)]
    };
    let case = || (setup(), noise(), [talk(), talk(), talk(), talk()]).prop_map(|(setup, noise, stages)| Keying { setup, noise, stages });
    ctx.run("keying", ctx.scale(2_000, 12), case, m02_case);
    let gaps = prop_oneof![1 => Just(vec![]), 2 => prop::collection::vec(0u8..60, 1..8)];
    let case = move || (setup(), any::<bool>(), prop_oneof![1 => Just(0u8), 5 => Just(1u8), 1 => 2u8..5], prop_oneof![1u16..20, 50u16..250], gaps.clone())
        .prop_map(|(setup, last, before, times, gaps)| Repeats { setup, last, before, times, gaps });
    ctx.run("repeated-bursts", ctx.scale(1_500, 8), case, m02_repeats);
}

// ---- M03 ----

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Break {
    CloseControl,
    ResetControl,
    CloseData,
    ResetData,
    CloseBoth,
    /// The remote ends the link.
    Disconnected,
    /// The modem sends something that is not a line of its language.
    Garbage,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Fault {
    NoControl,
    NoData,
    NoRig,
    /// WRONG to this command of the script.
    Wrong(u8),
    /// At this command: before (false) or after it was answered with so many bytes of "OK\r".
    Control(u8, u8, Break),
    /// The connection request was accepted; this happens instead of CONNECTED.
    Unconnected(Break),
    /// After these lines, none of which is a prompt, and an incomplete one.
    Link(Vec<Vec<u8>>, Vec<u8>, Break),
    /// Own callsign (true) or target.
    Callsign(bool, String),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
struct Failing {
    setup: Setup,
    noise: Noise,
    fault: Fault,
    typed: bool,
}

impl Session {
    fn strike(&mut self, b: Break, c: &Cuts) {
        let close = |s: &mut Option<TcpStream>, hard: bool| {
            if let Some(s) = s.take() {
                if hard {
                    reset(&s);
                    // the tap holds a second handle: shut the reading side so that it lets go
                    let _ = s.shutdown(Shutdown::Read);
                } else {
                    let _ = s.shutdown(Shutdown::Both);
                }
            }
        };
        match b {
            Break::CloseControl => close(&mut self.ctl, false),
            Break::ResetControl => close(&mut self.ctl, true),
            Break::CloseData => close(&mut self.data, false),
            Break::ResetData => close(&mut self.data, true),
            Break::CloseBoth => {
                close(&mut self.ctl, false);
                close(&mut self.data, false);
            }
            Break::Disconnected => self.say(b"DISCONNECTED\r", c),
            Break::Garbage => self.say(b"SPAM\r", c),
        }
    }
}

fn m03_case(c: &Failing, obs: &mut Obs) -> Result<(), String> {
    let mut s = c.setup.clone();
    obs.label_if(s.verbose, "all logging on");
    obs.label(match &c.fault {
        Fault::NoControl => "control port refused",
        Fault::NoData => "data port refused",
        Fault::NoRig => "no rig",
        Fault::Wrong(_) => "command refused",
        Fault::Control(..) => "modem breaks off during setup",
        Fault::Unconnected(_) => "no connection",
        Fault::Link(..) => "broken off before the prompt",
        Fault::Callsign(..) => "invalid callsign",
    });
    obs.nontrivial_if(true);
    let whole = script(&s);
    let quiet = &c.noise.cuts;
    let mut allowed: Vec<String> = whole.to_vec();
    let mut p;
    match &c.fault {
        Fault::NoControl | Fault::NoData => {
            let (host, cl, dl) = listen_pair()?;
            let dead = fresh_host();
            let mut w = Where { host, control: cl.local_addr().unwrap().port(), data: dl.local_addr().unwrap().port(), rig: None };
            let keep;
            if c.fault == Fault::NoControl {
                w.host = dead;
                keep = vec![dl];
            } else {
                drop(dl);
                keep = vec![cl];
            }
            p = Session::launch(&s, w, None)?;
            if c.typed {
                p.enter("");
            }
            ended(&mut p)?;
            drop(keep);
            return Ok(());
        }
        Fault::Callsign(own, text) => {
            if *own {
                s.mine = text.clone();
                s.style = (s.style / 3).min(84) * 3 + 2;
            } else {
                s.target = text.clone();
            }
            let (host, cl, dl) = listen_pair()?;
            let w = Where { host, control: cl.local_addr().unwrap().port(), data: dl.local_addr().unwrap().port(), rig: None };
            p = Session::launch(&s, w, None)?;
            let r = p.exit("the program ends");
            for l in [&cl, &dl] {
                l.set_nonblocking(true).unwrap();
                if l.accept().is_ok() {
                    return Err(format!("{:?} is an invalid callsign, the modem was contacted; {}", text, p.fate()));
                }
            }
            let st = r?;
            p.panicked()?;
            if st.success() || st.code().is_none() {
                return Err(format!("{:?} is an invalid callsign; {}", text, p.fate()));
            }
            return Ok(());
        }
        Fault::NoRig => {
            let (host, cl, dl) = listen_pair()?;
            let w = Where { host, control: cl.local_addr().unwrap().port(), data: dl.local_addr().unwrap().port(), rig: Some("./no-such-port".into()) };
            p = Session::launch(&s, w, Some((cl, dl)))?;
            if c.typed {
                p.enter("");
            }
            p.connect_modem()?;
            for line in whole.iter().take(3) {
                p.expect_line(line)?;
                p.say(&c.noise.around("OK\r"), quiet);
            }
            allowed.truncate(3);
        }
        _ => {
            p = Session::start(&s)?;
            if c.typed {
                p.enter("");
            }
        }
    }
    match &c.fault {
        Fault::Wrong(k) => {
            let k = *k as usize % 4;
            p.connect_modem()?;
            for line in &whole[..k] {
                p.expect_line(line)?;
                p.say(&c.noise.around("OK\r"), quiet);
            }
            p.expect_line(&whole[k])?;
            p.say(&c.noise.around("WRONG\r"), quiet);
            allowed.truncate(k + 1);
        }
        Fault::Control(k, n, b) => {
            let k = *k as usize % 4;
            p.connect_modem()?;
            for line in &whole[..k] {
                p.expect_line(line)?;
                p.say(&c.noise.around("OK\r"), quiet);
            }
            p.expect_line(&whole[k])?;
            p.say(&b"OK\r"[..*n as usize % 3], quiet);
            p.strike(*b, quiet);
            allowed.truncate(k + 1);
        }
        Fault::Unconnected(b) => {
            p.to_connect(&s, &c.noise)?;
            p.say(b"OK\r", quiet);
            p.strike(*b, quiet);
        }
        Fault::Link(lines, tail, b) => {
            p.to_link(&s, &c.noise)?;
            let mut wire = vec![];
            let mut want = vec![];
            for l in lines {
                let mut l = clean(l, s.verbose);
                if l.ends_with(b">") {
                    l.push(b'.');
                }
                wire.extend(wire_of(&[l.clone()]));
                want.extend(print_of(&[l]));
            }
            wire.extend(clean(tail, s.verbose));
            p.deliver(&wire, &c.noise.cuts)?;
            p.expect_printed(s.verbose, &want)?;
            p.strike(*b, quiet);
            // a link that was not reported as ended may be taken down
            allowed.push("DISCONNECT".into());
            if *b == Break::Disconnected {
                allowed.pop();
            }
        }
        _ => {}
    }
    ended(&mut p)?;
    p.nothing_sent("after a failed session")?;
    let sent = p.commands();
    if !allowed.starts_with(&sent) {
        return Err(format!("the modem receives {:?}, expected at most {:?}", sent, allowed));
    }
    Ok(())
}

/// The program ends by itself, with an error.
fn ended(p: &mut Session) -> Result<(), String> {
    let st = p.exit("the program ends by itself")?;
    p.wait("the program's output ends", |p| (p.out.ended() && p.err.ended()).then_some(Ok(())))?;
    p.panicked()?;
    match st.code() {
        Some(0) => Err("the session failed, the program's exit status is 0".into()),
        Some(_) => Ok(()),
        None => Err(format!("the program was killed by signal {:?}", st.signal())),
    }
}

fn not_a_callsign() -> impl Strategy<Value = String> {
    let call = || "[0-9]?[A-Za-z]{1,2}[0-9]{1,2}[A-Za-z]{1,3}(-[A-Za-z0-9]{1,2})?";
    prop_oneof![
        2 => (call(), prop::sample::select(vec![" ", "\r", "\n", "-", "-123", "\rABORT", " via W1AW", "é", "/P", "\rDISCONNECT", "\n\n"])).prop_map(|(a, b)| a + b),
        2 => (prop::sample::select(vec![" ", "\r", "x ", "\n", "é", "ABORT\r", "123"]), call()).prop_map(|(a, b)| format!("{}{}", a, b)),
        1 => "[A-Za-z0-9]{0,8}",
        1 => "[ -~]{0,8}",
        1 => "\\PC{0,5}",
    ]
    .prop_filter("invalid", |s| !is_identity(s) && !s.starts_with('-') && !s.contains('\0'))
}

pub fn m03(ctx: &Ctx) {
    ctx.rule("Sessions of the built program that fail at a generated point (refused ports, missing rig, refusal, garbage, closed or reset connections, disconnect before the prompt) and invalid callsign arguments; every case is non-trivial.");
    ctx.assume(BED);
    let during = || prop::sample::select(vec![Break::CloseControl, Break::ResetControl, Break::CloseBoth, Break::Garbage]);
    let unconnected = || prop::sample::select(vec![Break::CloseControl, Break::ResetControl, Break::CloseBoth, Break::Garbage, Break::Disconnected, Break::Disconnected, Break::Disconnected]);
    let live = || prop::sample::select(vec![Break::CloseControl, Break::ResetControl, Break::CloseData, Break::ResetData, Break::CloseBoth, Break::Garbage, Break::Disconnected, Break::Disconnected, Break::Disconnected]);
    let fault = move || prop_oneof![
        1 => Just(Fault::NoControl),
        1 => Just(Fault::NoData),
        1 => Just(Fault::NoRig),
        4 => (0u8..4).prop_map(Fault::Wrong),
        4 => (0u8..4, 0u8..3, during()).prop_map(|(k, n, b)| Fault::Control(k, n, b)),
        4 => unconnected().prop_map(Fault::Unconnected),
        8 => (lines(4), prop_oneof![1 => Just(vec![]), 1 => line()], live()).prop_map(|(l, t, b)| Fault::Link(l, t, b)),
        5 => (any::<bool>(), not_a_callsign()).prop_map(|(o, s)| Fault::Callsign(o, s)),
    ];
    let case = move || (setup(), noise(), fault(), any::<bool>()).prop_map(|(setup, noise, fault, typed)| Failing { setup, noise, fault, typed });
    ctx.run("failures", ctx.scale(2_000, 12), case, m03_case);
}

// ---- M04 ----

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Opt {
    Target,
    Own,
    Address,
    Control,
    Data,
    Rig,
    Baud,
    Log,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Wrong {
    Missing(Opt),
    /// This option is given with this text.
    Value(Opt, String),
    /// Control port 65535 and no data port.
    NoRoom,
    /// An argument that is not known.
    Extra(String),
    /// A log filter from the environment.
    Environment(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
struct Choices {
    setup: Setup,
    /// Given, or left at the default.
    address: bool,
    control: Option<u16>,
    data: Option<u16>,
    baud: u8,
    /// The speed of the rig's line before.
    baud_before: u8,
    order: Vec<u8>,
    wrong: Option<Wrong>,
}

const SPEEDS: [u32; 4] = [4800, 9600, 19200, 38400];

/// The line's speeds, in and out.
fn speed(f: &File) -> (u32, u32) {
    unsafe {
        let mut t: libc::termios2 = std::mem::zeroed();
        libc::ioctl(f.as_raw_fd(), libc::TCGETS2, &mut t);
        (t.c_ispeed, t.c_ospeed)
    }
}

fn m04_case(c: &Choices, obs: &mut Obs) -> Result<(), String> {
    let s = &c.setup;
    // a default address or port is one place: one such case at a time
    static PLACE: Mutex<()> = Mutex::new(());
    let address = c.address && !matches!(c.wrong, Some(Wrong::Missing(Opt::Address)));
    let _turn = (!address).then(|| PLACE.lock().unwrap_or_else(|e| e.into_inner()));
    let host = if address { fresh_host() } else { Ipv4Addr::LOCALHOST };
    let control = c.control.unwrap_or(8300);
    let (control, given) = match c.wrong {
        Some(Wrong::NoRoom) => (65535, None),
        _ if control == 65535 => (control, Some(c.data.unwrap_or(2000))),
        _ => (control, c.data),
    };
    let Some(data) = given.or(control.checked_add(1)).or(c.wrong.is_some().then_some(65534)) else { unreachable!() };
    if data == control {
        return Ok(());
    }
    // whoever is contacted is noticed
    let mut ports = vec![control, data, 8300, 8301, control.saturating_add(1), control.saturating_sub(1), data.saturating_sub(1), data.saturating_add(1)];
    ports.sort();
    ports.dedup();
    let other = fresh_host();
    let mut listeners = vec![];
    for h in [host, other] {
        for p in &ports {
            match TcpListener::bind((h, *p)) {
                Ok(l) => listeners.push(((h, *p), l)),
                Err(_) if h == host && (*p == control || *p == data) => {
                    obs.label("port taken (skipped)");
                    return Ok(());
                }
                Err(_) => {}
            }
        }
    }
    let rig = Pty::open()?;
    unsafe {
        let mut t: libc::termios2 = std::mem::zeroed();
        libc::ioctl(rig._slave.as_raw_fd(), libc::TCGETS2, &mut t);
        t.c_cflag = t.c_cflag & !libc::CBAUD | libc::BOTHER;
        let before = [1200, 57600, 4800, 38400][c.baud_before as usize % 4];
        (t.c_ispeed, t.c_ospeed) = (before, before);
        libc::ioctl(rig._slave.as_raw_fd(), libc::TCSETS2, &t);
    }
    let baud = SPEEDS[c.baud as usize % 4];
    let value = |o: Opt, good: String| match &c.wrong {
        Some(Wrong::Value(w, text)) if *w == o => text.clone(),
        _ => good,
    };
    let mut groups: Vec<Vec<String>> = vec![];
    let n = c.order.len();
    let mut put = |o: Opt, names: &[&str], good: String| {
        if matches!(c.wrong, Some(Wrong::Missing(w)) if w == o) {
            return;
        }
        let v = value(o, good);
        let how = c.order.get(groups.len() % n.max(1)).copied().unwrap_or(0) as usize;
        let name = names[how / 4 % names.len()];
        // a short name is followed by its value
        groups.push(match how % 4 {
            _ if name.is_empty() => vec![v],
            0 | 1 if name.starts_with("--") || v.starts_with('-') => vec![format!("{}={}", name, v)],
            2 if !name.starts_with("--") && !v.is_empty() => vec![format!("{}{}", name, v)],
            _ => vec![name.to_string(), v],
        });
    };
    put(Opt::Target, &[""], s.target.clone());
    put(Opt::Own, &["--de", "-d"], s.mine.clone());
    put(Opt::Rig, &["--rig-control"], rig.path.clone());
    put(Opt::Baud, &["--rig-baud"], baud.to_string());
    let wrong_value = |o: Opt| matches!(&c.wrong, Some(Wrong::Value(w, _)) if *w == o);
    if address || wrong_value(Opt::Address) {
        put(Opt::Address, &["--modem-address"], host.to_string());
    }
    if c.control.is_some() || control != 8300 || wrong_value(Opt::Control) {
        put(Opt::Control, &["--modem-control-port"], control.to_string());
    }
    if given.is_some() || wrong_value(Opt::Data) {
        put(Opt::Data, &["--modem-data-port"], data.to_string());
    }
    let log = if s.verbose { "trace" } else { "off" };
    let env = match &c.wrong {
        Some(Wrong::Environment(text)) => text.clone(),
        _ if s.style & 32 == 0 => {
            put(Opt::Log, &["--log", "-l"], log.to_string());
            if s.style & 64 == 0 { String::new() } else { "trace".to_string() }
        }
        _ => {
            if wrong_value(Opt::Log) {
                put(Opt::Log, &["--log", "-l"], log.to_string());
            }
            log.to_string()
        }
    };
    let from_env = !env.is_empty() || matches!(c.wrong, Some(Wrong::Environment(_)));
    if let Some(Wrong::Extra(text)) = &c.wrong {
        groups.push(vec![text.clone()]);
    }
    // any order
    let mut keyed: Vec<(u8, Vec<String>)> = groups.into_iter().enumerate().map(|(i, g)| (c.order.get((i + 3) % n.max(1)).copied().unwrap_or(0).wrapping_mul(7), g)).collect();
    keyed.sort_by_key(|k| k.0);
    let args: Vec<String> = keyed.into_iter().flat_map(|k| k.1).collect();
    obs.nontrivial_if(c.wrong.is_some() || !address || c.control.is_none() || given.is_none());
    obs.label(match &c.wrong {
        None => "valid command line",
        Some(Wrong::Missing(_)) => "argument missing",
        Some(Wrong::Value(..)) | Some(Wrong::Environment(_)) => "value that cannot be read",
        Some(Wrong::NoRoom) => "no data port above 65535",
        Some(Wrong::Extra(_)) => "unknown argument",
    });
    if c.wrong.is_none() {
        obs.label_if(!address, "default address");
        obs.label_if(c.control.is_none(), "default control port");
        obs.label_if(given.is_none(), "default data port");
    }
    let dir = Scratch::new();
    let mut cmd = Command::new(program());
    cmd.env_clear().env("PATH", "/usr/bin:/bin").current_dir(&dir.0).args(&args);
    if from_env {
        cmd.env("RUST_LOG", &env);
    }
    let mut p = Session::spawn(cmd, rig, dir)?;
    let accepted = |l: &TcpListener| {
        let _ = l.set_nonblocking(true);
        let r = l.accept().ok();
        r.map(|(s, _)| {
            let _ = s.set_nonblocking(false);
            s
        })
    };
    if c.wrong.is_some() {
        let r = ended(&mut p);
        for (at, l) in &listeners {
            if accepted(l).is_some() {
                return Err(format!("{:?} cannot be accepted, {:?} was contacted; {}", args, at, p.fate()));
            }
        }
        if !p.rig.tap.bytes().is_empty() {
            return Err(format!("{:?} cannot be accepted, the rig received {:?}", args, String::from_utf8_lossy(&p.rig.tap.bytes())));
        }
        return r.map_err(|e| format!("{:?} cannot be accepted: {}", args, e));
    }
    let (mut ctl, mut dat) = (None, None);
    p.wait(&format!("{:?}: the program connects to {} ports {} and {}", args, host, control, data), |_| {
        for ((h, q), l) in &listeners {
            if let Some(s) = accepted(l) {
                let slot = match () {
                    _ if *h == host && *q == control && ctl.is_none() => &mut ctl,
                    _ if *h == host && *q == data && dat.is_none() => &mut dat,
                    _ => return Some(Err(format!("{:?}: the program connects to {} port {}", args, h, q))),
                };
                *slot = Some(s);
            }
        }
        (ctl.is_some() && dat.is_some()).then_some(Ok(()))
    })?;
    p.attach(ctl.take().unwrap(), dat.take().unwrap());
    for line in script(s).iter().take(3) {
        p.expect_line(line)?;
        p.say(b"OK\r", &Cuts::default());
    }
    p.expect_line(&script(s)[3])?;
    let got = speed(&p.rig._slave);
    if got != (baud, baud) {
        return Err(format!("{:?}: the rig's line is set to {:?} baud", args, got));
    }
    for ((h, q), l) in &listeners {
        if accepted(l).is_some() {
            return Err(format!("{:?}: the program also connects to {} port {}", args, h, q));
        }
    }
    p.panicked()
}

pub fn m04(ctx: &Ctx) {
    ctx.rule("Command lines of the built program with any choice of modem address, ports and rig speed, in any order and spelling, and ones that cannot be accepted; listeners on the chosen, neighbouring and default ports of two addresses record all connections; non-trivial = something is left at its default or cannot be accepted.");
    ctx.assume(BED);
    let port = || prop_oneof![6 => 1024u16..32000, 1 => Just(8300u16), 1 => Just(8299u16), 1 => Just(65535u16), 1 => Just(65534u16)];
    let any_opt = prop::sample::select(vec![Opt::Target, Opt::Own, Opt::Rig, Opt::Baud]);
    let number = || prop_oneof![
        2 => prop::sample::select(vec!["0", "65536", "-1", "", "x", "8300x", "99999999999999999999", "8300 ", " 8300", "0x206c", "8300.0", "8_300", "00", "1e3", "65535.5", "196608"]).prop_map(String::from),
        1 => (65536u64..u64::MAX).prop_map(|n| n.to_string()),
    ];
    let value = prop_oneof![
        3 => prop_oneof![
            prop::sample::select(vec!["0", "300", "1200", "2400", "57600", "115200", "04800", "9600 ", "4800.0", "384000", "3840", "480", "x", "", "4800,9600", "4801", "9600bd"]).prop_map(String::from),
            (1u32..1_000_000).prop_filter("not one of the four", |n| !SPEEDS.contains(n)).prop_map(|n| n.to_string()),
        ].prop_map(|v| Wrong::Value(Opt::Baud, v)),
        2 => number().prop_map(|v| Wrong::Value(Opt::Control, v)),
        2 => number().prop_map(|v| Wrong::Value(Opt::Data, v)),
        2 => prop::sample::select(vec!["localhost", "127.0.0", "256.0.0.1", "", "modem", "127.0.0.1:8300", "::g", "[::1]", "127.0.0.1 ", "127.0.0.0.1", "0x7f000001", "127.1"]).prop_map(|v| Wrong::Value(Opt::Address, v.into())),
        2 => (any::<bool>(), prop::sample::select(vec!["a=b=c", "[", "=", "info,=", "a=verbose", "[{x=", "plusendi=loud", "x[y"])).prop_map(|(e, v)| if e { Wrong::Environment(v.into()) } else { Wrong::Value(Opt::Log, v.into()) }),
    ];
    let wrong = prop_oneof![
        3 => any_opt.prop_map(Wrong::Missing),
        9 => value,
        2 => Just(Wrong::NoRoom),
        2 => prop::sample::select(vec!["--verbose", "--modem", "W1AW", "-x", "--rig-bauds=4800", "--modem_address=127.0.0.1"]).prop_map(|v| Wrong::Extra(v.into())),
    ];
    let case = move || {
        let opt = |w: f64| prop::option::weighted(w, port());
        (setup(), prop::bool::weighted(0.85), opt(0.7), opt(0.5), 0u8..4, 0u8..4, prop::collection::vec(any::<u8>(), 6..14), prop::option::weighted(0.4, wrong.clone()))
            .prop_map(|(setup, address, control, data, baud, baud_before, order, wrong)| Choices { setup, address, control, data, baud, baud_before, order, wrong })
    };
    ctx.run("command-lines", ctx.scale(5_000, 12), case, m04_case);
}
