//! The simulated world: the schedule/fault tape, the clock with its timers, the event log, and the
//! simulated transports (`SimReader`, `SimWriter`) handed to the code under test.
use crate::alloc;
use crate::tape::Tape;
use futures::io::{AsyncRead, AsyncWrite};
use std::collections::BTreeMap;
use std::io::{self, ErrorKind, Read, Seek, SeekFrom, Write};
use std::pin::Pin;
use std::sync::{Arc, Mutex, MutexGuard};
use std::task::{Context, Poll, Waker};

pub fn lock<T: ?Sized>(m: &Mutex<T>) -> MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

/// Panic payload: the code under test keeps calling a transport that supplies nothing, or consumes
/// more than its budget.
pub struct Runaway(pub String);

#[derive(Default)]
pub struct Cell {
    pub fired: bool,
    pub waker: Option<Waker>,
}
pub struct Timer {
    pub at: u64,
    pub seq: u64,
    pub cell: Arc<Mutex<Cell>>,
}

pub struct Sim {
    pub s: Tape,
    pub clock: u64,
    pub seq: u64,
    pub hash: u64,
    pub trace: Option<Vec<String>>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub timers: Vec<Timer>,
    pub calls: u64,
    pub nontrivial: bool,
}

#[derive(Clone)]
pub struct World(Arc<Mutex<Sim>>);

impl World {
    pub fn new(s: Tape, trace: bool) -> World {
        World(Arc::new(Mutex::new(Sim {
            s,
            clock: 0,
            seq: 0,
            hash: 0xcbf2_9ce4_8422_2325,
            trace: if trace { Some(vec![]) } else { None },
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            timers: vec![],
            calls: 0,
            nontrivial: false,
        })))
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut Sim) -> R) -> R {
        let _m = alloc::mute();
        let mut g = lock(&self.0);
        f(&mut g)
    }
    /// Draw from the schedule/fault tape.
    pub fn draw(&self, n: u64) -> u64 {
        self.with(|w| w.s.draw(n))
    }
    pub fn chance(&self, a: u64, b: u64) -> bool {
        self.with(|w| w.s.chance(a, b))
    }
    pub fn note(&self, f: impl FnOnce() -> String) {
        self.with(|w| w.note(f))
    }
    pub fn probe(&self, k: &'static str) {
        self.with(|w| *w.probes.entry(k).or_insert(0) += 1)
    }
    pub fn fault(&self, k: &'static str) {
        self.with(|w| w.fault(k))
    }
    /// Advance to the earliest timer and fire it. False if there is none.
    pub fn advance(&self) -> bool {
        let waker = self.with(|w| {
            let i = match (0..w.timers.len()).min_by_key(|i| (w.timers[*i].at, w.timers[*i].seq)) {
                Some(i) => i,
                None => return None,
            };
            let t = w.timers.swap_remove(i);
            w.clock = w.clock.max(t.at);
            w.ev("fire", 0, t.seq, 0);
            let mut c = lock(&t.cell);
            c.fired = true;
            Some(c.waker.take())
        });
        match waker {
            None => false,
            Some(x) => {
                let _m = alloc::mute();
                if let Some(x) = x {
                    x.wake();
                }
                true
            }
        }
    }
}

impl Sim {
    pub fn ev(&mut self, tag: &'static str, id: u32, a: u64, b: u64) {
        self.seq += 1;
        let mut h = self.hash;
        for x in [tag.as_ptr() as u64 * 0, tag.len() as u64, tag.as_bytes()[0] as u64, id as u64, a, b] {
            h = (h ^ x).wrapping_mul(0x100_0000_01b3);
            h ^= h >> 29;
        }
        self.hash = h;
        if let Some(t) = self.trace.as_mut() {
            if t.len() < 20_000 {
                t.push(format!("t={} {} #{} {} {}", self.clock, tag, id, a, b));
            }
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.trace.is_some() {
            let s = f();
            let t = self.trace.as_mut().unwrap();
            if t.len() < 20_000 {
                t.push(format!("t={} {}", self.clock, s));
            }
        }
    }
    pub fn fault(&mut self, k: &'static str) {
        *self.faults.entry(k).or_insert(0) += 1;
        self.nontrivial = true;
    }
    pub fn pend(&mut self, cell: &Arc<Mutex<Cell>>) {
        let d = 1 + self.s.draw(50);
        self.seq += 1;
        self.timers.push(Timer {
            at: self.clock + d,
            seq: self.seq,
            cell: cell.clone(),
        });
        self.fault("not_ready");
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    All,
    One,
    Small,
    Mixed,
}

#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub mode: Mode,
    /// of 16, per call: start a burst of interruptions (blocking side only)
    pub eintr: u64,
    /// longest burst
    pub burst: u64,
    /// of 16, per call: not ready (async side only)
    pub pend: u64,
    /// once: this many interruptions, or wake-ups that find the transport still not ready, in a row
    pub storm: u64,
}
impl Cfg {
    pub const PLAIN: Cfg = Cfg {
        mode: Mode::All,
        eintr: 0,
        burst: 0,
        pend: 0,
        storm: 0,
    };
    /// Swarm style: each knob is off in a good share of the runs.
    pub fn draw(w: &World) -> Cfg {
        w.with(|w| {
            let s = &mut w.s;
            Cfg {
                mode: s.pick(&[Mode::All, Mode::One, Mode::Small, Mode::Mixed]),
                eintr: s.pick(&[0, 1, 4, 12]),
                burst: s.pick(&[1, 2, 5, 20]),
                pend: s.pick(&[0, 1, 4, 12]),
                storm: if s.chance(1, 64) { s.pick(&[60, 300, 1500]) } else { 0 },
            }
        })
    }
    pub fn no_eintr(mut self) -> Cfg {
        self.eintr = 0;
        self
    }
    fn take(&self, w: &mut Sim, n: usize) -> usize {
        match self.mode {
            Mode::All => n,
            _ if n <= 1 => n,
            // (content in the megabytes is not delivered byte by byte, but for its last part)
            Mode::One | Mode::Small if n > 100_000 => 1 + w.s.draw(n as u64 / 16) as usize,
            Mode::One => 1,
            Mode::Small => 1 + w.s.draw(n.min(4) as u64) as usize,
            Mode::Mixed => {
                if w.s.chance(1, 2) {
                    n
                } else {
                    1 + w.s.draw(n as u64) as usize
                }
            }
        }
    }
}

/// Kinds of a failing transport. The first six name a transport category of their own.
pub const KINDS: [ErrorKind; 35] = [
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionRefused,
    ErrorKind::NotConnected,
    ErrorKind::AlreadyExists,
    ErrorKind::TimedOut,
    ErrorKind::UnexpectedEof,
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::ConnectionAborted,
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::OutOfMemory,
    ErrorKind::WriteZero,
    ErrorKind::NotFound,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::Unsupported,
    ErrorKind::StorageFull,
    ErrorKind::QuotaExceeded,
    ErrorKind::FileTooLarge,
    ErrorKind::ReadOnlyFilesystem,
    ErrorKind::NotSeekable,
    ErrorKind::ResourceBusy,
    ErrorKind::Deadlock,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::NetworkDown,
    ErrorKind::NotADirectory,
    ErrorKind::IsADirectory,
    ErrorKind::DirectoryNotEmpty,
    ErrorKind::ExecutableFileBusy,
    ErrorKind::TooManyLinks,
    ErrorKind::WouldBlock, // blocking side only: an async transport is pending instead
];

impl World {
    pub fn kind(&self, blocking: bool) -> ErrorKind {
        self.with(|w| w.kind(blocking))
    }
}
impl Sim {
    pub fn kind(&mut self, blocking: bool) -> ErrorKind {
        let n = KINDS.len() as u64;
        match self.s.draw(3) {
            0 => KINDS[self.s.draw(6) as usize],
            1 if blocking && self.s.chance(1, 6) => ErrorKind::WouldBlock,
            _ => KINDS[self.s.draw(if blocking { n } else { n - 1 }) as usize],
        }
    }
    /// The forms an `io::Error` of one kind takes: bare, with a message, from the system.
    fn error(&mut self, k: ErrorKind) -> io::Error {
        match self.s.draw(3) {
            0 => k.into(),
            1 => io::Error::new(k, "simulated failure"),
            _ => {
                let code = match k {
                    ErrorKind::ConnectionReset => 104,
                    ErrorKind::ConnectionRefused => 111,
                    ErrorKind::NotConnected => 107,
                    ErrorKind::AlreadyExists => 17,
                    ErrorKind::TimedOut => 110,
                    ErrorKind::BrokenPipe => 32,
                    ErrorKind::PermissionDenied => 13,
                    ErrorKind::StorageFull => 28,
                    ErrorKind::WouldBlock => 11,
                    ErrorKind::OutOfMemory => 12,
                    _ => return k.into(),
                };
                io::Error::from_raw_os_error(code)
            }
        }
    }
}

pub type Hook = Arc<dyn Fn() + Send + Sync>;

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub calls: u64,
    pub eintrs: u64,
    pub pends: u64,
    pub idle: u64,
    pub failed: u64,
    pub after_fail: u64,
    pub eofs: u64,
    pub zero: u64,
}

pub struct RState {
    pub id: u32,
    pub data: Arc<Vec<u8>>,
    pub pos: usize,
    /// once `data` is used up, repeat this for ever
    pub endless: Option<Vec<u8>>,
    pub cfg: Cfg,
    pub err: Option<(usize, ErrorKind)>,
    pub sticky: bool,
    pub max_pos: usize,
    pub st: Stats,
    pub seek_err: Option<ErrorKind>,
    delivered: u64,
    burst: u64,
    granted: bool,
    wait: Option<Arc<Mutex<Cell>>>,
}

#[derive(Clone)]
pub struct SimReader {
    pub r: Arc<Mutex<RState>>,
    pub world: World,
    pub hook: Option<Hook>,
}

enum Step {
    Go(io::Result<usize>),
    Panic(String),
}

impl SimReader {
    pub fn new(world: &World, id: u32, data: Vec<u8>, cfg: Cfg) -> SimReader {
        let _m = alloc::mute();
        SimReader {
            r: Arc::new(Mutex::new(RState {
                id,
                data: Arc::new(data),
                pos: 0,
                endless: None,
                cfg,
                err: None,
                sticky: false,
                max_pos: usize::MAX,
                st: Stats::default(),
                seek_err: None,
                delivered: 0,
                burst: 0,
                granted: false,
                wait: None,
            })),
            world: world.clone(),
            hook: None,
        }
    }
    pub fn get(&self) -> MutexGuard<'_, RState> {
        lock(&self.r)
    }
    pub fn pos(&self) -> usize {
        self.get().pos
    }
    pub fn stats(&self) -> Stats {
        self.get().st.clone()
    }
    pub fn fail_at(self, pos: usize, kind: ErrorKind, sticky: bool) -> SimReader {
        {
            let mut g = self.get();
            g.err = Some((pos, kind));
            g.sticky = sticky;
        }
        self
    }

    fn step(&self, buf: &mut [u8], blocking: bool) -> Step {
        let mut g = self.get();
        let st = &mut *g;
        self.world.with(|w| {
            w.calls += 1;
            w.clock += 1;
            st.st.calls += 1;
            let n = buf.len();
            if st.st.failed > 0 {
                st.st.after_fail += 1;
            }
            if n == 0 {
                st.st.zero += 1;
                st.st.idle += 1;
                return st.verdict(Ok(0));
            }
            if blocking {
                if st.burst > 0 {
                    st.burst -= 1;
                    st.st.eintrs += 1;
                    w.fault("eintr");
                    w.ev("eintr", st.id, st.pos as u64, 0);
                    return Step::Go(Err(ErrorKind::Interrupted.into()));
                }
                if st.cfg.eintr > 0 && !st.granted && w.s.chance(st.cfg.eintr, 16) {
                    st.burst = if st.cfg.storm > 0 {
                        w.fault("storm");
                        std::mem::take(&mut st.cfg.storm)
                    } else {
                        w.s.draw(st.cfg.burst)
                    };
                    if st.burst == 0 {
                        st.granted = true;
                    }
                    st.st.eintrs += 1;
                    w.fault("eintr");
                    w.ev("eintr", st.id, st.pos as u64, 0);
                    return Step::Go(Err(ErrorKind::Interrupted.into()));
                }
            }
            st.granted = false;
            let mut avail = if st.endless.is_some() {
                usize::MAX - st.pos
            } else {
                st.data.len().saturating_sub(st.pos)
            };
            if let Some((at, kind)) = st.err {
                if (st.sticky && st.st.failed > 0) || (st.st.failed == 0 && st.pos >= at) {
                    st.st.failed += 1;
                    st.st.idle += 1;
                    w.fault("read_error");
                    w.ev("rfail", st.id, st.pos as u64, kind as u64);
                    let e = w.error(kind);
                    return st.verdict(Err(e));
                }
                if st.st.failed == 0 {
                    avail = avail.min(at - st.pos);
                }
            }
            let m = n.min(avail);
            if m == 0 {
                st.st.eofs += 1;
                st.st.idle += 1;
                w.ev("eof", st.id, st.pos as u64, 0);
                return st.verdict(Ok(0));
            }
            let k = st.cfg.take(w, m);
            if k < n {
                w.fault("short_read");
            }
            for (i, b) in buf[..k].iter_mut().enumerate() {
                let p = st.pos + i;
                *b = match st.data.get(p) {
                    Some(b) => *b,
                    None => {
                        let e = st.endless.as_ref().unwrap();
                        e[(p - st.data.len()) % e.len()]
                    }
                };
            }
            st.pos += k;
            st.delivered += k as u64;
            w.ev("read", st.id, st.pos as u64, k as u64);
            if st.pos > st.max_pos {
                return Step::Panic(format!("consumed {} bytes of an endless stream", st.pos));
            }
            Step::Go(Ok(k))
        })
    }
    fn run(&self, buf: &mut [u8], blocking: bool) -> io::Result<usize> {
        match self.step(buf, blocking) {
            Step::Go(r) => r,
            Step::Panic(m) => std::panic::panic_any(Runaway(m)),
        }
    }
}

impl RState {
    fn verdict(&self, r: io::Result<usize>) -> Step {
        if self.st.idle > 1000 + 4 * self.delivered {
            return Step::Panic(format!(
                "{} reads that supplied nothing after {} bytes",
                self.st.idle, self.delivered
            ));
        }
        Step::Go(r)
    }
}

impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let _m = alloc::mute();
        if let Some(h) = self.hook.as_ref() {
            h();
        }
        self.run(buf, true)
    }
}

/// Common not-ready logic of both async transports. True: return Pending.
fn gate(
    world: &World,
    cx: &mut Context<'_>,
    wait: &mut Option<Arc<Mutex<Cell>>>,
    granted: &mut bool,
    st: &mut Stats,
    cfg: &mut Cfg,
    id: u32,
) -> bool {
    let mut again = false;
    if let Some(c) = wait.as_ref() {
        let mut g = lock(c);
        if !g.fired {
            g.waker = Some(cx.waker().clone());
            world.with(|w| w.ev("still", id, 0, 0));
            return true;
        }
        drop(g);
        *wait = None;
        *granted = true;
        if cfg.storm > 0 {
            cfg.storm -= 1;
            again = true;
            world.with(|w| w.fault("storm"));
        } else {
            again = world.chance(cfg.pend, 64);
        }
    }
    if again || (!*granted && cfg.pend > 0 && world.chance(cfg.pend, 16)) {
        let cell = Arc::new(Mutex::new(Cell {
            fired: false,
            waker: Some(cx.waker().clone()),
        }));
        world.with(|w| {
            w.pend(&cell);
            w.ev("pend", id, 0, 0);
        });
        *wait = Some(cell);
        st.pends += 1;
        return true;
    }
    *granted = false;
    false
}

impl AsyncRead for SimReader {
    fn poll_read(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut [u8],
    ) -> Poll<io::Result<usize>> {
        let _m = alloc::mute();
        if let Some(h) = self.hook.as_ref() {
            h();
        }
        {
            let mut g = self.get();
            let st = &mut *g;
            if !buf.is_empty()
                && gate(&self.world, cx, &mut st.wait, &mut st.granted, &mut st.st, &mut st.cfg, st.id)
            {
                return Poll::Pending;
            }
        }
        Poll::Ready(self.run(buf, false))
    }
}

impl Seek for SimReader {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        let _m = alloc::mute();
        let mut g = self.get();
        let to = match pos {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::End(n) => g.data.len() as i128 + n as i128,
            SeekFrom::Current(n) => g.pos as i128 + n as i128,
        };
        self.world.with(|w| w.ev("seek", g.id, to as u64, 0));
        if let Some(k) = g.seek_err.take() {
            return Err(self.world.with(|w| w.error(k)));
        }
        if to < 0 || to > i64::MAX as i128 {
            return Err(ErrorKind::InvalidInput.into());
        }
        g.pos = to as usize;
        Ok(to as u64)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum WFail {
    /// the write call fails
    Err(ErrorKind),
    /// the sink accepts nothing (`Ok(0)`)
    Zero,
}

pub struct WState {
    pub id: u32,
    pub got: Vec<u8>,
    pub cfg: Cfg,
    pub fail: Option<(usize, WFail)>,
    pub sticky: bool,
    pub flush_fail: Option<ErrorKind>,
    /// bytes guaranteed to survive a crash
    pub durable: usize,
    pub flushes: u64,
    pub st: Stats,
    granted: bool,
    burst: u64,
    wait: Option<Arc<Mutex<Cell>>>,
}

#[derive(Clone)]
pub struct SimWriter {
    pub w: Arc<Mutex<WState>>,
    pub world: World,
    pub hook: Option<Hook>,
}

impl SimWriter {
    pub fn new(world: &World, id: u32, cfg: Cfg) -> SimWriter {
        let _m = alloc::mute();
        SimWriter {
            w: Arc::new(Mutex::new(WState {
                id,
                got: vec![],
                cfg,
                fail: None,
                sticky: false,
                flush_fail: None,
                durable: 0,
                flushes: 0,
                st: Stats::default(),
                granted: false,
                burst: 0,
                wait: None,
            })),
            world: world.clone(),
            hook: None,
        }
    }
    pub fn get(&self) -> MutexGuard<'_, WState> {
        lock(&self.w)
    }
    pub fn durable(&self) -> usize {
        self.get().durable
    }
    pub fn flushes(&self) -> u64 {
        self.get().flushes
    }
    pub fn got(&self) -> Vec<u8> {
        self.get().got.clone()
    }
    pub fn len(&self) -> usize {
        self.get().got.len()
    }
    pub fn stats(&self) -> Stats {
        self.get().st.clone()
    }
    pub fn fail_at(self, pos: usize, f: WFail, sticky: bool) -> SimWriter {
        {
            let mut g = self.get();
            g.fail = Some((pos, f));
            g.sticky = sticky;
        }
        self
    }
    fn step(&self, buf: &[u8], blocking: bool) -> Step {
        let mut g = self.get();
        let st = &mut *g;
        self.world.with(|w| {
            w.calls += 1;
            w.clock += 1;
            st.st.calls += 1;
            let n = buf.len();
            if st.st.failed > 0 {
                st.st.after_fail += 1;
            }
            if n == 0 {
                st.st.idle += 1;
                return st.verdict(Ok(0));
            }
            if blocking {
                if st.burst > 0 {
                    st.burst -= 1;
                    st.st.eintrs += 1;
                    w.fault("eintr");
                    w.ev("eintr", st.id, st.got.len() as u64, 1);
                    return Step::Go(Err(ErrorKind::Interrupted.into()));
                }
                if st.cfg.eintr > 0 && !st.granted && w.s.chance(st.cfg.eintr, 16) {
                    st.burst = if st.cfg.storm > 0 {
                        w.fault("storm");
                        std::mem::take(&mut st.cfg.storm)
                    } else {
                        w.s.draw(st.cfg.burst)
                    };
                    if st.burst == 0 {
                        st.granted = true;
                    }
                    st.st.eintrs += 1;
                    w.fault("eintr");
                    w.ev("eintr", st.id, st.got.len() as u64, 1);
                    return Step::Go(Err(ErrorKind::Interrupted.into()));
                }
            }
            st.granted = false;
            let mut room = n;
            if let Some((at, f)) = st.fail {
                if (st.sticky && st.st.failed > 0) || (st.st.failed == 0 && st.got.len() >= at) {
                    st.st.failed += 1;
                    st.st.idle += 1;
                    w.ev("wfail", st.id, st.got.len() as u64, 0);
                    return match f {
                        WFail::Err(k) => {
                            w.fault("write_error");
                            let e = w.error(k);
                            st.verdict(Err(e))
                        }
                        WFail::Zero => {
                            w.fault("sink_full");
                            st.verdict(Ok(0))
                        }
                    };
                }
                if st.st.failed == 0 {
                    room = room.min(at - st.got.len());
                }
            }
            let k = st.cfg.take(w, room);
            if k < n {
                w.fault("short_write");
            }
            st.got.extend_from_slice(&buf[..k]);
            w.ev("write", st.id, st.got.len() as u64, k as u64);
            Step::Go(Ok(k))
        })
    }
    fn run(&self, buf: &[u8], blocking: bool) -> io::Result<usize> {
        match self.step(buf, blocking) {
            Step::Go(r) => r,
            Step::Panic(m) => std::panic::panic_any(Runaway(m)),
        }
    }
    fn do_flush(&self) -> io::Result<()> {
        let mut g = self.get();
        let st = &mut *g;
        self.world.with(|w| {
            w.clock += 1;
            st.flushes += 1;
            if let Some(k) = st.flush_fail.take() {
                w.fault("flush_error");
                w.ev("ffail", st.id, st.got.len() as u64, 0);
                // part of the cache may have made it
                let lost = w.s.draw((st.got.len() - st.durable) as u64 + 1) as usize;
                st.durable = st.got.len() - lost;
                return Err(w.error(k));
            }
            st.durable = st.got.len();
            w.ev("flush", st.id, st.durable as u64, 0);
            Ok(())
        })
    }
}

impl WState {
    fn verdict(&self, r: io::Result<usize>) -> Step {
        if self.st.idle > 1000 + 4 * self.got.len() as u64 {
            return Step::Panic(format!("{} writes that accepted nothing", self.st.idle));
        }
        Step::Go(r)
    }
}

impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let _m = alloc::mute();
        if let Some(h) = self.hook.as_ref() {
            h();
        }
        self.run(buf, true)
    }
    fn flush(&mut self) -> io::Result<()> {
        let _m = alloc::mute();
        if let Some(h) = self.hook.as_ref() {
            h();
        }
        self.do_flush()
    }
}

impl AsyncWrite for SimWriter {
    fn poll_write(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &[u8],
    ) -> Poll<io::Result<usize>> {
        let _m = alloc::mute();
        if let Some(h) = self.hook.as_ref() {
            h();
        }
        {
            let mut g = self.get();
            let st = &mut *g;
            if !buf.is_empty()
                && gate(&self.world, cx, &mut st.wait, &mut st.granted, &mut st.st, &mut st.cfg, st.id)
            {
                return Poll::Pending;
            }
        }
        Poll::Ready(self.run(buf, false))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let _m = alloc::mute();
        if let Some(h) = self.hook.as_ref() {
            h();
        }
        {
            let mut g = self.get();
            let st = &mut *g;
            if gate(&self.world, cx, &mut st.wait, &mut st.granted, &mut st.st, &mut st.cfg, st.id) {
                return Poll::Pending;
            }
        }
        Poll::Ready(self.do_flush())
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.poll_flush(cx)
    }
}
