//! Bounded exhaustive exploration of real code: a stateless depth-first explorer over explicit choices, a tracking
//! allocator, and the reporting both need. No randomness anywhere: a case is a `top` number and a list of choices.

pub mod track;

use std::{
    any::Any,
    cell::{Cell, RefCell},
    collections::HashSet,
    fmt::Write as _,
    hash::{BuildHasherDefault, Hash, Hasher},
    panic::{self, AssertUnwindSafe},
    sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, AtomicUsize, Ordering::*},
    sync::Mutex,
    time::{Duration, Instant},
};

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($fmt:tt)*) => {
        if !$cond { return Err($crate::track::off(|| format!($($fmt)*))); }
    };
}

/// A quick, deterministic hasher (FNV-1a style over 8-byte words).
#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 32)
    }
    fn write(&mut self, bytes: &[u8]) {
        for &b in bytes {
            self.write_u64(b as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517c_c1b7_2722_0a95)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type U64Set = HashSet<u64, BuildHasherDefault<Fx>>;
pub fn hash_of(t: &(impl Hash + ?Sized)) -> u64 {
    let mut h = Fx::default();
    t.hash(&mut h);
    h.finish()
}

/// The source of every decision of one case.
pub struct Chooser {
    pub top: usize,
    choices: [u16; Self::MAX],
    widths: [u16; Self::MAX],
    /// How many entries of `choices` are to be replayed.
    fixed: usize,
    pos: usize,
    pub logging: bool,
    pub log: Vec<String>,
    states: U64Set,
    outcomes: U64Set,
    pub transitions: u64,
}
impl Chooser {
    const MAX: usize = 4096;
    fn new() -> Box<Self> {
        Box::new(Chooser {
            top: 0,
            choices: [0; Self::MAX],
            widths: [0; Self::MAX],
            fixed: 0,
            pos: 0,
            logging: false,
            log: vec![],
            states: Default::default(),
            outcomes: Default::default(),
            transitions: 0,
        })
    }
    /// One of `0 .. n`, all of which get explored.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n >= 1 && n < u16::MAX as usize && self.pos < Self::MAX, "explorer: bad choice");
        let i = self.pos;
        if i >= self.fixed {
            self.choices[i] = 0;
        } else if self.choices[i] as usize >= n {
            panic!("explorer: divergence while replaying a prefix");
        }
        self.widths[i] = n as u16;
        self.pos += 1;
        self.choices[i] as usize
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.logging {
            let s = track::off(f);
            track::off(|| self.log.push(s));
        }
    }
    /// A model state was reached.
    pub fn state(&mut self, h: u64) {
        track::off(|| self.states.insert(h));
    }
    /// A final observation (to show that executions do differ).
    pub fn outcome(&mut self, h: u64) {
        track::off(|| self.outcomes.insert(h));
    }
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    fn advance(&mut self) -> bool {
        let mut i = self.pos;
        while i > 0 {
            i -= 1;
            if self.choices[i] + 1 < self.widths[i] {
                self.choices[i] += 1;
                self.fixed = i + 1;
                return true;
            }
        }
        false
    }
    fn vector(&self) -> Vec<u16> {
        self.choices[..self.pos.max(self.fixed).min(Self::MAX)].to_vec()
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static IN_CASE: Cell<bool> = const { Cell::new(false) };
    static QUIET: Cell<bool> = const { Cell::new(true) };
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        track::off(|| {
            let msg = format!("{info}").replace('\n', " ");
            if !QUIET.with(|q| q.get()) {
                eprintln!("{msg}");
            }
            LAST_PANIC.with(|p| {
                if let Ok(mut p) = p.try_borrow_mut() {
                    *p = msg
                }
            });
        })
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Runs `f`; `Err(())` when it panicked (the payload is dropped here).
pub fn catches<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(payload) => {
            drop_payload(payload);
            Err(())
        },
    }
}
fn drop_payload(p: Box<dyn Any + Send>) {
    drop(p)
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub what: String,
    pub top: usize,
    pub choices: Vec<u16>,
    pub log: Vec<String>,
}

pub struct Report {
    pub executions: u64,
    pub states: u64,
    pub transitions: u64,
    pub outcomes: u64,
    pub samples: Vec<String>,
    pub violation: Option<Violation>,
    pub wall: f64,
    pub capped: bool,
}

const SLOTS: usize = 64;
static CURRENT: [AtomicPtr<Chooser>; SLOTS] = {
    #[allow(clippy::declare_interior_mutable_const)]
    const N: AtomicPtr<Chooser> = AtomicPtr::new(std::ptr::null_mut());
    [N; SLOTS]
};
static PROGRESS: [AtomicU64; SLOTS] = {
    #[allow(clippy::declare_interior_mutable_const)]
    const N: AtomicU64 = AtomicU64::new(0);
    [N; SLOTS]
};
static PHASE: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static PHASE_LEN: AtomicUsize = AtomicUsize::new(0);

thread_local!(static MY_SLOT: Cell<usize> = const { Cell::new(usize::MAX) });

fn raw_write(s: &[u8]) {
    unsafe { libc::write(1, s.as_ptr().cast(), s.len()) };
}
fn raw_num(mut n: usize) {
    let mut b = [0u8; 20];
    let mut i = 20;
    loop {
        i -= 1;
        b[i] = b'0' + (n % 10) as u8;
        n /= 10;
        if n == 0 {
            break;
        }
    }
    raw_write(&b[i..]);
}
/// Async-signal-safe report of the case that slot is running, then the end.
fn die(kind: &[u8], n: usize, slot: usize) -> ! {
    raw_write(b"\nDIED ");
    raw_write(kind);
    raw_write(b" ");
    raw_num(n);
    raw_write(b" phase ");
    let p = PHASE.load(Relaxed);
    if !p.is_null() {
        raw_write(unsafe { std::slice::from_raw_parts(p, PHASE_LEN.load(Relaxed)) });
    } else {
        raw_write(b"-");
    }
    let c = if slot < SLOTS { CURRENT[slot].load(Relaxed) } else { std::ptr::null_mut() };
    if !c.is_null() {
        unsafe {
            raw_write(b" top ");
            raw_num((*c).top);
            raw_write(b" choices ");
            for i in 0..(*c).pos.min(Chooser::MAX) {
                if i > 0 {
                    raw_write(b",");
                }
                raw_num((*c).choices[i] as usize);
            }
        }
    }
    raw_write(b"\n");
    unsafe { libc::_exit(70) }
}
extern "C" fn on_signal(sig: libc::c_int) {
    let slot = MY_SLOT.try_with(|s| s.get()).unwrap_or(usize::MAX);
    die(b"signal", sig as usize, slot)
}
pub fn install_crash_reporting() {
    unsafe {
        for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_signal as extern "C" fn(libc::c_int) as usize;
            sa.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(sig, &sa, std::ptr::null_mut());
        }
    }
}

pub struct Args {
    pub thorough: bool,
    pub property: String,
    pub replay: Option<(String, usize, Vec<u16>)>,
    pub threads: usize,
    pub extra: Vec<String>,
}
impl Args {
    /// `BIN PROPERTY (quick|thorough) [--replay PHASE TOP C,C,C] [extra…]`
    pub fn parse() -> Args {
        let mut it = std::env::args().skip(1);
        let property = it.next().expect("property");
        let thorough = it.next().expect("tier") == "thorough";
        let mut replay = None;
        let mut extra = vec![];
        while let Some(a) = it.next() {
            if a == "--replay" {
                let phase = it.next().unwrap();
                let top = it.next().unwrap().parse().unwrap();
                let cs = it.next().unwrap_or_default();
                replay = Some((
                    phase,
                    top,
                    cs.split(',').filter(|s| !s.is_empty() && *s != "-").map(|s| s.parse().unwrap()).collect(),
                ));
            } else {
                extra.push(a)
            }
        }
        let threads = std::env::var("VC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
        Args { thorough, property, replay, threads, extra }
    }
}

/// Collects the phases of one run and prints the machine-readable result.
pub struct Session {
    pub args: Args,
    fields: Vec<String>,
    start: Instant,
}
impl Session {
    pub fn new() -> Session {
        install_panic_hook();
        install_crash_reporting();
        Session { args: Args::parse(), fields: vec![], start: Instant::now() }
    }
    /// Explores all cases of all tops. Ends the process at the first violation.
    pub fn phase(&mut self, name: &str, tops: usize, body: impl Fn(&mut Chooser) -> Res + Sync) {
        self.phase_capped(name, tops, u64::MAX, body)
    }
    pub fn phase_capped(&mut self, name: &str, tops: usize, cap: u64, body: impl Fn(&mut Chooser) -> Res + Sync) {
        if let Some((phase, top, choices)) = &self.args.replay {
            if phase != name {
                return;
            }
            let (res, log) = replay(*top, choices, &body);
            for l in log {
                println!("  {l}");
            }
            match res {
                Err(e) => {
                    println!("REPLAYED violation: {e}");
                    std::process::exit(1)
                },
                Ok(()) => {
                    println!("REPLAYED fine");
                    std::process::exit(0)
                },
            }
        }
        let nm: &'static str = Box::leak(name.to_owned().into_boxed_str());
        PHASE_LEN.store(nm.len(), Relaxed);
        PHASE.store(nm.as_ptr() as *mut u8, Relaxed);
        let r = explore(self.args.threads, tops, cap, &body);
        let mut s = String::new();
        write!(
            s,
            "{{\"phase\":{},\"tops\":{},\"executions\":{},\"states\":{},\"transitions\":{},\"outcomes\":{},\
            \"wall_s\":{:.3},\"exhaustive\":{},\"samples\":[{}]}}",
            json(name),
            tops,
            r.executions,
            r.states,
            r.transitions,
            r.outcomes,
            r.wall,
            !r.capped,
            r.samples.iter().map(|s| json(s)).collect::<Vec<_>>().join(",")
        )
        .unwrap();
        self.fields.push(s);
        if let Some(v) = r.violation {
            println!("RESULT {}", self.result());
            println!("CASE phase={} top={} choices={}", name, v.top, join(&v.choices));
            for l in &v.log {
                println!("LOG {}", l.replace('\n', " "));
            }
            println!("BAD {}", v.what.replace('\n', " "));
            std::process::exit(1);
        }
    }
    fn result(&self) -> String {
        format!("{{\"phases\":[{}],\"wall_s\":{:.3}}}", self.fields.join(","), self.start.elapsed().as_secs_f64())
    }
    pub fn finish(self) -> ! {
        if self.args.replay.is_some() {
            println!("no such phase");
            std::process::exit(2)
        }
        println!("RESULT {}", self.result());
        std::process::exit(0)
    }
}
pub fn join(v: &[u16]) -> String {
    if v.is_empty() {
        return "-".into();
    }
    v.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")
}
pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn run_case(c: &mut Chooser, body: &(impl Fn(&mut Chooser) -> Res + ?Sized)) -> Res {
    c.pos = 0;
    LAST_PANIC.with(|p| p.borrow_mut().clear());
    let r = panic::catch_unwind(AssertUnwindSafe(|| body(c)));
    // (The payload may be a tracked allocation.)
    let r = r.map_err(drop_payload);
    let tracked = track::abandon();
    match r {
        Ok(Ok(())) => tracked,
        Ok(Err(e)) => Err(e),
        Err(()) => {
            let m = last_panic();
            if m.contains("explorer:") {
                // Not a verdict: an error of the machinery.
                raw_write(b"\nMACHINERY ");
                raw_write(m.as_bytes());
                raw_write(b"\n");
                unsafe { libc::_exit(3) }
            }
            Err(format!("unexpected panic: {m}"))
        },
    }
}

fn replay(top: usize, choices: &[u16], body: &(impl Fn(&mut Chooser) -> Res + ?Sized)) -> (Res, Vec<String>) {
    let mut c = Chooser::new();
    c.top = top;
    c.choices[..choices.len()].copy_from_slice(choices);
    c.fixed = choices.len();
    c.logging = true;
    let r = run_case(&mut c, body);
    (r, std::mem::take(&mut c.log))
}

fn explore(threads: usize, tops: usize, cap: u64, body: &(impl Fn(&mut Chooser) -> Res + Sync)) -> Report {
    let start = Instant::now();
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let execs = AtomicU64::new(0);
    struct Acc {
        states: U64Set,
        outcomes: U64Set,
        transitions: u64,
        samples: Vec<(usize, Vec<u16>)>,
        violation: Option<Violation>,
    }
    let acc = Mutex::new(Acc {
        states: Default::default(),
        outcomes: Default::default(),
        transitions: 0,
        samples: vec![],
        violation: None,
    });
    std::thread::scope(|s| {
        s.spawn(|| {
            // Watchdog: a case that makes no progress for a minute is a hang.
            let mut last = [(0u64, 0u32); SLOTS];
            let mut tick = 0u64;
            while !done.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(20));
                tick += 1;
                if tick % 50 != 0 {
                    continue;
                }
                for i in 0..SLOTS {
                    if CURRENT[i].load(Relaxed).is_null() {
                        last[i] = (0, 0);
                        continue;
                    }
                    let p = PROGRESS[i].load(Relaxed);
                    if p == last[i].0 {
                        last[i].1 += 1;
                        if last[i].1 > 60 {
                            die(b"hang", 60, i);
                        }
                    } else {
                        last[i] = (p, 0);
                    }
                }
            }
        });
        let workers: Vec<_> = (0..threads.min(tops).max(1))
            .map(|slot| {
                let (next, stop, acc, execs, capped) = (&next, &stop, &acc, &execs, &capped);
                s.spawn(move || {
                    MY_SLOT.with(|m| m.set(slot));
                    alt_stack();
                    let mut c = Chooser::new();
                    CURRENT[slot].store(&mut *c, SeqCst);
                    let mut samples = vec![];
                    let mut n = 0u64;
                    'tops: loop {
                        let top = next.fetch_add(1, SeqCst);
                        if top >= tops || stop.load(SeqCst) {
                            break;
                        }
                        c.top = top;
                        c.fixed = 0;
                        let mut per_top = 0u64;
                        loop {
                            let r = run_case(&mut c, body);
                            n += 1;
                            per_top += 1;
                            PROGRESS[slot].fetch_add(1, Relaxed);
                            if (n.is_power_of_two() && n > 64) && samples.len() < 16 {
                                samples.push((top, c.vector()));
                            }
                            if let Err(what) = r {
                                let choices = c.vector();
                                stop.store(true, SeqCst);
                                let (again, log) = replay(top, &choices, body);
                                let v = match again {
                                    Err(w) if w == what => Violation { what, top, choices, log },
                                    Err(w) => Violation { what: format!("{what} (on replay: {w})"), top, choices, log },
                                    Ok(()) => Violation {
                                        what: format!("{what} (NOT-REPRODUCED: the same choices passed on replay)"),
                                        top,
                                        choices,
                                        log,
                                    },
                                };
                                let mut a = acc.lock().unwrap();
                                if a.violation.as_ref().map_or(true, |o| (v.choices.len(), v.top) < (o.choices.len(), o.top)) {
                                    a.violation = Some(v);
                                }
                                break 'tops;
                            }
                            if stop.load(Relaxed) {
                                break 'tops;
                            }
                            if !c.advance() {
                                break;
                            }
                            if per_top >= cap {
                                capped.store(true, SeqCst);
                                break;
                            }
                        }
                    }
                    CURRENT[slot].store(std::ptr::null_mut(), SeqCst);
                    execs.fetch_add(n, SeqCst);
                    let mut a = acc.lock().unwrap();
                    a.transitions += c.transitions;
                    a.samples.extend(samples);
                    a.states.extend(c.states.drain());
                    a.outcomes.extend(c.outcomes.drain());
                })
            })
            .collect();
        let mut failed = false;
        for w in workers {
            failed |= w.join().is_err();
        }
        done.store(true, SeqCst);
        assert!(!failed, "explorer: a worker panicked: {}", last_panic());
    });
    let mut a = acc.into_inner().unwrap();
    a.samples.sort();
    let k = (a.samples.len() / 4).max(1);
    let mut samples = vec![];
    if a.violation.is_none() {
        for (top, ch) in a.samples.iter().step_by(k).take(4) {
            let (_, log) = replay(*top, ch, body);
            samples.push(log.join("; "));
        }
        if samples.is_empty() {
            let (_, log) = replay(0, &[], body);
            samples.push(log.join("; "));
        }
    }
    Report {
        executions: execs.into_inner(),
        states: a.states.len() as u64,
        transitions: a.transitions,
        outcomes: a.outcomes.len() as u64,
        samples,
        violation: a.violation,
        wall: start.elapsed().as_secs_f64(),
        capped: capped.into_inner(),
    }
}

fn alt_stack() {
    unsafe {
        let size = 64 * 1024;
        let ss = libc::stack_t {
            ss_sp: libc::mmap(
                std::ptr::null_mut(),
                size,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            ),
            ss_flags: 0,
            ss_size: size,
        };
        libc::sigaltstack(&ss, std::ptr::null_mut());
    }
}
