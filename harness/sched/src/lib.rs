//! A controlled scheduler, an allocator and a happens-before race detector for programs compiled with
//! `-Zsanitizer=thread` and linked against this crate instead of the sanitizer's runtime.
//!
//! Exactly one thread of a program runs at a time. Before every atomic operation (and futex call) the scheduler decides
//! who goes on; `explore` enumerates all these decisions, depth first, up to a number of preemptions. Every access to
//! memory is checked against a vector-clock race detector (C++11 orderings, fences and release sequences included) and
//! against the life of its allocation. This crate itself is not instrumented.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
    collections::{HashMap, HashSet},
    fmt::Write as _,
    sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering::*},
    time::{Duration, Instant},
};

mod tsan;

/// Thread 0 runs `setup` and `finish`.
pub const THREADS: usize = 4;
const ARENA: usize = 1 << 18;

/// A quick hasher for addresses.
#[derive(Default, Clone, Copy)]
struct Hash(u64);
impl std::hash::Hasher for Hash {
    fn finish(&self) -> u64 {
        self.0 ^ self.0 >> 29
    }
    fn write(&mut self, b: &[u8]) {
        b.iter().for_each(|&b| self.write_u64(b as u64))
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(7) ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
type Fx = std::hash::BuildHasherDefault<Hash>;

type Vc = [u32; THREADS];
fn join(a: &mut Vc, b: &Vc) {
    for i in 0..THREADS {
        a[i] = a[i].max(b[i]);
    }
}

#[derive(Clone, Copy)]
struct Shadow {
    wt: u8,
    wc: u32,
    /// The last reads, and the last atomic reads and writes, of each thread.
    r: Vc,
    ar: Vc,
    aw: Vc,
}
const FRESH: Shadow = Shadow { wt: 0, wc: 0, r: [0; THREADS], ar: [0; THREADS], aw: [0; THREADS] };

#[derive(Clone, Copy, PartialEq, Debug)]
enum State {
    Ready,
    Blocked(usize),
    Done,
}

#[derive(Clone, Copy)]
enum Event {
    Note(&'static str),
    Atomic(&'static str, usize),
    Switch(usize),
    Alloc(usize, usize),
    Free(usize, usize),
    Block(usize),
}

struct Alloc {
    addr: usize,
    layout: Layout,
    live: bool,
}

#[derive(Clone, Default)]
struct Object {
    holders: i64,
    drops: u32,
}

#[derive(Clone, Copy)]
struct Choice {
    chosen: u16,
    width: u16,
}

struct Rt {
    n: usize,
    bound: u32,
    preemptions: u32,
    run_length: u32,
    points: u64,
    state: [State; THREADS],
    timed: [bool; THREADS],
    expired: [bool; THREADS],
    /// Take read-modify-writes for `AcqRel`.
    strengthen: bool,
    /// Whether memory is observed (not in the run that warms up).
    memory: bool,
    vc: [Vc; THREADS],
    /// What relaxed loads have seen (for acquire fences), and what a release fence published.
    seen: [Vc; THREADS],
    published: [Vc; THREADS],
    sync: HashMap<usize, Vc, Fx>,
    arena: *mut u8,
    bump: usize,
    shadow: Vec<Shadow>,
    /// The allocation each byte of the arena belongs to, plus one.
    owner: Vec<u32>,
    allocs: Vec<Alloc>,
    elsewhere: HashMap<usize, Shadow, Fx>,
    stacks: [(usize, usize); THREADS],
    trace: Vec<Choice>,
    depth: usize,
    fixed: usize,
    events: Vec<(u8, Event)>,
    objects: HashMap<u64, Object>,
    outcome: Vec<u64>,
    case: String,
    program: String,
}

static mut RT: *mut Rt = std::ptr::null_mut();
static ACTIVE: AtomicBool = AtomicBool::new(false);
static PROGRESS: AtomicU64 = AtomicU64::new(0);
static GO: [AtomicI32; THREADS] = [AtomicI32::new(0), AtomicI32::new(0), AtomicI32::new(0), AtomicI32::new(0)];

thread_local! {
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
    static OFF: Cell<u32> = const { Cell::new(0) };
}

fn rt() -> &'static mut Rt {
    unsafe { &mut *RT }
}
/// The calling thread, if it is running a program under exploration (and not this crate's own code).
#[inline]
fn me() -> Option<usize> {
    if !ACTIVE.load(Relaxed) {
        return None;
    }
    let t = TID.with(|t| t.get());
    if t == usize::MAX || OFF.with(|o| o.get()) != 0 {
        None
    } else {
        Some(t)
    }
}
struct Off;
fn off() -> Off {
    OFF.with(|o| o.set(o.get() + 1));
    Off
}
impl Drop for Off {
    fn drop(&mut self) {
        OFF.with(|o| o.set(o.get() - 1));
    }
}
/// Runs `f` unobserved.
pub fn hidden<R>(f: impl FnOnce() -> R) -> R {
    let _off = off();
    f()
}

// ------------------------------------------------------------------------------------------------ failing

fn exit(code: i32) -> ! {
    unsafe { raw_syscall(231, code as usize, 0, 0, 0, 0, 0) };
    loop {}
}

/// Reports a violation in the current execution and ends the process.
pub fn bad(what: &str) -> ! {
    let _off = off();
    let r = rt();
    let mut out = String::new();
    let choices: Vec<String> = r.trace[..r.depth.min(r.trace.len())].iter().map(|c| c.chosen.to_string()).collect();
    let t = TID.with(|t| t.get());
    let who = if t == 0 { "the main thread".to_owned() } else { format!("thread {t}") };
    let _ = writeln!(out, "LOG program: {}", r.program);
    for (t, e) in &r.events {
        let _ = match e {
            Event::Note(s) => writeln!(out, "LOG thread {t}: {s}"),
            Event::Atomic(s, a) => writeln!(out, "LOG thread {t}:     {s} {}", place(*a)),
            Event::Switch(u) => writeln!(out, "LOG --- thread {u} goes on"),
            Event::Alloc(a, n) => writeln!(out, "LOG thread {t}:     allocates {n} bytes at {}", place(*a)),
            Event::Free(a, n) => writeln!(out, "LOG thread {t}:     frees the {n} bytes at {}", place(*a)),
            Event::Block(a) => writeln!(out, "LOG thread {t}:     waits for {}", place(*a)),
        };
    }
    let _ = writeln!(out, "BAD {}: {} ({})", r.program, what.replace('\n', " "), who);
    let _ = writeln!(out, "{} choices={}", r.case, if choices.is_empty() { "-".to_owned() } else { choices.join(",") });
    print(&out);
    exit(1)
}
fn print(s: &str) {
    let mut at = 0;
    while at < s.len() {
        let n = unsafe { raw_syscall(1, 1, s.as_ptr() as usize + at, s.len() - at, 0, 0, 0) };
        if n <= 0 {
            break;
        }
        at += n as usize;
    }
}
fn check_error(what: &str) -> ! {
    print(&format!("CHECK-ERROR {what}\n"));
    exit(3)
}
fn place(a: usize) -> String {
    let r = rt();
    if in_arena(a) {
        let o = r.owner[a - r.arena as usize];
        if o != 0 {
            let al = &r.allocs[o as usize - 1];
            return format!("#{}+{}", o - 1, a - al.addr);
        }
    }
    if r.stacks.iter().any(|s| s.0 <= a && a < s.1) {
        "the stack".to_owned()
    } else {
        "a static".to_owned()
    }
}

// ------------------------------------------------------------------------------------------------ what programs tell

/// Whether to take every atomic read-modify-write for `AcqRel` (for programs whose dependencies use weaker ones).
pub fn strengthen(on: bool) {
    rt().strengthen = on
}
/// What the calling thread is doing (for reports).
pub fn note(s: &'static str) {
    if let Some(t) = me() {
        let _off = off();
        rt().events.push((t as u8, Event::Note(s)));
    }
}
/// The caller is about to own (`n` > 0) or give up (`n` < 0) handles of object `id`.
pub fn hold(id: u64, n: i64) {
    if me().is_some() {
        let _off = off();
        rt().objects.entry(id).or_default().holders += n;
    }
}
/// Object `id` is being destroyed.
pub fn destroyed(id: u64) {
    if me().is_some() {
        let _off = off();
        let o = rt().objects.entry(id).or_default();
        o.drops += 1;
        if o.drops > 1 {
            bad("an object was destroyed twice");
        }
        if o.holders > 0 {
            bad(&format!("an object was destroyed while it still had {} handles", o.holders));
        }
    }
}
pub fn holders(id: u64) -> i64 {
    let _off = off();
    rt().objects.get(&id).map_or(0, |o| o.holders)
}
/// Something observable that may depend on the schedule.
pub fn outcome(x: u64) {
    if me().is_some() {
        let _off = off();
        let t = TID.with(|t| t.get()) as u64;
        rt().outcome.push(t << 56 | x);
    }
}
pub fn check(ok: bool, what: &str) {
    if !ok {
        bad(what)
    }
}

// ------------------------------------------------------------------------------------------------ the allocator

pub struct Arena;
fn in_arena(a: usize) -> bool {
    unsafe { !RT.is_null() && a >= (*RT).arena as usize && a < (*RT).arena as usize + ARENA }
}
unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let Some(t) = me() else { return System.alloc(l) };
        let _off = off();
        let r = rt();
        if !r.memory {
            return System.alloc(l);
        }
        let start = (r.arena as usize + r.bump + l.align() - 1) & !(l.align() - 1);
        // (A gap between allocations, so that overruns hit no neighbour.)
        let end = start + l.size().max(1) + 16;
        if end > r.arena as usize + ARENA {
            check_error("the arena is full");
        }
        r.bump = end - r.arena as usize;
        r.allocs.push(Alloc { addr: start, layout: l, live: true });
        let o = r.allocs.len() as u32;
        r.events.push((t as u8, Event::Alloc(start, l.size())));
        let clock = r.vc[t][t];
        for i in start..start + l.size() {
            let j = i - r.arena as usize;
            r.owner[j] = o;
            r.shadow[j] = Shadow { wt: t as u8, wc: clock, ..FRESH };
        }
        std::ptr::write_bytes(start as *mut u8, 0xA5, l.size());
        start as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        if !in_arena(a) {
            return System.dealloc(p, l);
        }
        let Some(t) = me() else { return };
        let _off = off();
        let r = rt();
        let o = r.owner[a - r.arena as usize];
        let found = if l.size() == 0 { r.allocs.iter().position(|x| x.addr == a) } else { (o as usize).checked_sub(1) };
        let Some(found) = found else { bad("memory that was never allocated is freed") };
        if !r.allocs[found].live {
            bad("memory is freed twice");
        }
        if r.allocs[found].addr != a || r.allocs[found].layout != l {
            bad(&format!("memory allocated as {:?} is freed as {l:?}", r.allocs[found].layout));
        }
        access(t, a, l.size(), Kind::Free);
        r.events.push((t as u8, Event::Free(a, l.size())));
        r.allocs[found].live = false;
        std::ptr::write_bytes(p, 0x5A, l.size());
    }
}

// ------------------------------------------------------------------------------------------------ races

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Read,
    Write,
    AtomicRead,
    AtomicWrite,
    Free,
}

fn access(t: usize, a: usize, n: usize, kind: Kind) {
    let r = rt();
    if !r.memory || r.stacks[t].0 <= a && a < r.stacks[t].1 {
        return;
    }
    let vc = r.vc[t];
    let base = r.arena as usize;
    // Besides the arena, only variables (`static`s) can be shared; what the exploration itself allocated is left alone.
    let known = a >= base && a < base + ARENA;
    if !known && !(unsafe { &__data_start as *const u8 as usize } <= a && a < unsafe { &_end as *const u8 as usize }) && !r.stacks.iter().any(|s| s.0 <= a && a < s.1) {
        return;
    }
    for i in a..a + n {
        let s = if i >= base && i < base + ARENA {
            let o = r.owner[i - base];
            if o == 0 {
                bad("memory outside of every allocation is used");
            }
            if !r.allocs[o as usize - 1].live {
                bad(&format!("memory is used after it was freed ({} bytes at {})", n, place(a)));
            }
            &mut r.shadow[i - base]
        } else {
            r.elsewhere.entry(i).or_insert(FRESH)
        };
        let write_race = s.wc > vc[s.wt as usize];
        let any = |x: &Vc| (0..THREADS).any(|u| x[u] > vc[u]);
        let races = match kind {
            Kind::Read => write_race || any(&s.aw),
            Kind::AtomicRead => write_race,
            Kind::Write | Kind::Free => write_race || any(&s.r) || any(&s.ar) || any(&s.aw),
            Kind::AtomicWrite => write_race || any(&s.r),
        };
        if races {
            bad(&format!(
                "{} of {} bytes at {} races with {} by another thread: nothing orders the two",
                match kind {
                    Kind::Read => "a read",
                    Kind::Write => "a write",
                    Kind::AtomicRead => "an atomic read",
                    Kind::AtomicWrite => "an atomic write",
                    Kind::Free => "the freeing",
                },
                n,
                place(a),
                if write_race {
                    "a write"
                } else if any(&s.r) {
                    "a read"
                } else {
                    "an atomic access"
                }
            ));
        }
        match kind {
            Kind::Read => s.r[t] = vc[t],
            Kind::Write | Kind::Free => (s.wt, s.wc) = (t as u8, vc[t]),
            Kind::AtomicRead => s.ar[t] = vc[t],
            Kind::AtomicWrite => s.aw[t] = vc[t],
        }
    }
}

const ACQUIRES: [bool; 6] = [false, true, true, false, true, true];
const RELEASES: [bool; 6] = [false, false, false, true, true, true];

/// The effect on clocks of an atomic operation that reads and/or writes.
fn ordered(t: usize, a: usize, order: i32, reads: bool, writes: bool) {
    let r = rt();
    let order = if r.strengthen && reads && writes { 4 } else { order as usize % 6 };
    if reads {
        if let Some(s) = r.sync.get(&a).copied() {
            join(&mut r.seen[t], &s);
            if ACQUIRES[order] {
                join(&mut r.vc[t], &s);
            }
        }
    }
    if writes {
        let mut gives = r.published[t];
        if RELEASES[order] {
            join(&mut gives, &r.vc[t]);
        }
        let s = r.sync.entry(a).or_insert([0; THREADS]);
        if !reads {
            // A plain store starts anew; a read-modify-write continues the release sequence.
            *s = [0; THREADS];
        }
        join(s, &gives);
        r.vc[t][t] += 1;
    }
}
fn fence(t: usize, order: i32) {
    let r = rt();
    let order = order as usize % 6;
    if ACQUIRES[order] {
        let s = r.seen[t];
        join(&mut r.vc[t], &s);
    }
    if RELEASES[order] {
        r.published[t] = r.vc[t];
        r.vc[t][t] += 1;
    }
}

// ------------------------------------------------------------------------------------------------ scheduling

fn raw_futex(a: &AtomicI32, op: usize, v: i32) {
    unsafe { raw_syscall(202, a as *const _ as usize, op, v as usize, 0, 0, 0) };
}
unsafe fn raw_syscall(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let ret: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => ret, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    ret
}
fn signal(t: usize) {
    GO[t].store(1, SeqCst);
    raw_futex(&GO[t], 1 | 128, 1);
}
fn wait(t: usize) {
    while GO[t].swap(0, SeqCst) == 0 {
        raw_futex(&GO[t], 128, 0);
    }
}

/// Decides between `options` (the first one is the default).
fn choose(options: &[usize]) -> usize {
    let r = rt();
    if options.len() == 1 {
        return options[0];
    }
    let d = r.depth;
    r.depth += 1;
    if d < r.trace.len() {
        if d < r.fixed && r.trace[d].width == 0 {
            r.trace[d].width = options.len() as u16;
        }
        if r.trace[d].width as usize != options.len() || r.trace[d].chosen as usize >= options.len() {
            check_error("the program under exploration does not depend on the schedule only");
        }
    } else {
        r.trace.push(Choice { chosen: 0, width: options.len() as u16 });
    }
    options[r.trace[d].chosen as usize]
}

fn switch(t: usize, to: usize) {
    let r = rt();
    r.run_length = 0;
    r.events.push((t as u8, Event::Switch(to)));
    signal(to);
}

/// A point where another thread may go on.
fn point(t: usize) {
    let r = rt();
    PROGRESS.fetch_add(1, Relaxed);
    if t == 0 {
        return;
    }
    r.points += 1;
    r.run_length += 1;
    let mut options = [0; THREADS];
    options[0] = t;
    let mut n = 1;
    // (A thread that spins makes room for the others.)
    let spinning = r.run_length > 200;
    if r.preemptions < r.bound || spinning {
        for u in 1..=r.n {
            if u != t && r.state[u] == State::Ready {
                options[n] = u;
                n += 1;
            }
        }
    }
    if r.points > 20_000 {
        bad("the program does not come to an end");
    }
    let to = if spinning && n > 1 { choose(&options[1..n]) } else { choose(&options[..n]) };
    if to != t {
        if !spinning {
            r.preemptions += 1;
        }
        switch(t, to);
        wait(t);
    }
}

/// Thread `t` cannot go on.
fn leave(t: usize) {
    let r = rt();
    let ready: Vec<usize> = (1..=r.n).filter(|&u| r.state[u] == State::Ready).collect();
    if ready.is_empty() {
        if (1..=r.n).all(|u| r.state[u] == State::Done) {
            switch(t, 0);
            return;
        }
        let timed: Vec<usize> = (1..=r.n).filter(|&u| r.timed[u] && matches!(r.state[u], State::Blocked(_))).collect();
        if timed.is_empty() {
            bad("deadlock: no thread can go on");
        }
        let u = choose(&timed);
        r.state[u] = State::Ready;
        r.expired[u] = true;
        if u != t {
            switch(t, u);
        } else {
            signal(t);
        }
        return;
    }
    let u = choose(&ready);
    switch(t, u);
}

/// futex(2) for threads of programs: std's locks and parking end up here.
fn futex(t: usize, a: usize, op: usize, v: u32, timed: bool) -> Result<isize, i32> {
    let r = rt();
    point(t);
    match op & 0x7f {
        0 | 9 => {
            if unsafe { (*(a as *const std::sync::atomic::AtomicU32)).load(SeqCst) } != v {
                return Err(11);
            }
            if t == 0 {
                bad("the main thread blocks");
            }
            r.state[t] = State::Blocked(a);
            r.timed[t] = timed;
            r.events.push((t as u8, Event::Block(a)));
            leave(t);
            wait(t);
            let expired = std::mem::take(&mut r.expired[t]);
            if let Some(s) = r.sync.get(&a).copied() {
                join(&mut r.vc[t], &s);
            }
            if expired {
                Err(110)
            } else {
                Ok(0)
            }
        }
        1 | 10 => {
            let mut n = 0;
            let vc = r.vc[t];
            join(r.sync.entry(a).or_insert([0; THREADS]), &vc);
            r.vc[t][t] += 1;
            for u in 1..=r.n {
                if n < v as isize && r.state[u] == State::Blocked(a) {
                    r.state[u] = State::Ready;
                    r.timed[u] = false;
                    n += 1;
                }
            }
            Ok(n)
        }
        _ => check_error("an unknown futex operation"),
    }
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
    fn __errno_location() -> *mut i32;
    fn pthread_self() -> usize;
    fn pthread_getattr_np(t: usize, attr: *mut u8) -> i32;
    fn pthread_attr_getstack(attr: *const u8, addr: *mut usize, size: *mut usize) -> i32;
    fn pthread_attr_destroy(attr: *mut u8) -> i32;
    fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
}

/// Takes the place of libc's: std calls it for futexes.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let ret = if n == 202 && me().is_some() {
        let t = TID.with(|t| t.get());
        let _off = off();
        match futex(t, a, b, c as u32, d != 0) {
            Ok(x) => return x,
            Err(e) => -(e as isize),
        }
    } else {
        raw_syscall(n, a, b, c, d, e, f)
    };
    if ret < 0 && ret > -4096 {
        *__errno_location() = -ret as i32;
        return -1;
    }
    ret
}
/// Takes the place of libc's: who yields lets the others go first.
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if let Some(t) = me() {
        let _off = off();
        if t != 0 {
            rt().run_length = 1000;
        }
        point(t);
    }
    0
}

fn stack_of_this_thread() -> (usize, usize) {
    unsafe {
        let mut attr = [0u8; 256];
        let (mut addr, mut size) = (0, 0);
        pthread_getattr_np(pthread_self(), attr.as_mut_ptr());
        pthread_attr_getstack(attr.as_ptr(), &mut addr, &mut size);
        pthread_attr_destroy(attr.as_mut_ptr());
        (addr, addr + size)
    }
}

// ------------------------------------------------------------------------------------------------ exploring

/// One program: `setup` (on the main thread), then `body(i)` on threads 1..=n, then `finish` on the main thread.
pub struct Program<'a> {
    pub name: String,
    pub threads: usize,
    pub setup: &'a dyn Fn() -> *mut (),
    pub body: &'a (dyn Fn(*mut (), usize) + Sync),
    pub finish: &'a dyn Fn(*mut ()),
}

static mut JOB: Option<(*mut (), &'static (dyn Fn(*mut (), usize) + Sync))> = None;

fn worker(t: usize) {
    TID.with(|c| c.set(t));
    {
        let _off = off();
        unsafe { (*RT).stacks[t] = stack_of_this_thread() };
    }
    signal(0);
    loop {
        wait(t);
        let (state, body) = unsafe { JOB.unwrap() };
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body(state, t))).is_err() {
            bad("a thread panicked");
        }
        let _off = off();
        let r = rt();
        r.state[t] = State::Done;
        leave(t);
    }
}

#[derive(Default)]
pub struct Stats {
    pub programs: u64,
    pub executions: u64,
    pub points: u64,
    pub outcomes: HashSet<u64>,
    pub preempted: u64,
    pub longest: usize,
}

pub struct Explorer {
    pub stats: Stats,
    pub started: Instant,
}

impl Explorer {
    pub fn new(cpu: Option<usize>) -> Self {
        unsafe {
            let arena = System.alloc(Layout::from_size_align(ARENA, 4096).unwrap());
            RT = Box::leak(Box::new(Rt {
                n: 0,
                bound: 0,
                preemptions: 0,
                run_length: 0,
                points: 0,
                state: [State::Done; THREADS],
                timed: [false; THREADS],
                expired: [false; THREADS],
                strengthen: false,
                memory: false,
                vc: [[0; THREADS]; THREADS],
                seen: [[0; THREADS]; THREADS],
                published: [[0; THREADS]; THREADS],
                sync: HashMap::default(),
                arena,
                bump: 0,
                shadow: vec![FRESH; ARENA],
                owner: vec![0; ARENA],
                allocs: Vec::new(),
                elsewhere: HashMap::default(),
                stacks: [(0, 0); THREADS],
                trace: Vec::new(),
                depth: 0,
                fixed: 0,
                events: Vec::new(),
                objects: HashMap::new(),
                outcome: Vec::new(),
                case: String::new(),
                program: String::new(),
            }));
            if let Some(c) = cpu {
                let mask = [1u64 << (c % 64); 1];
                sched_setaffinity(0, 8, mask.as_ptr());
            }
            (*RT).stacks[0] = stack_of_this_thread();
        }
        for t in 1..THREADS {
            std::thread::Builder::new().name(format!("thread {t}")).spawn(move || worker(t)).unwrap();
            wait(0);
        }
        TID.with(|c| c.set(0));
        std::panic::set_hook(Box::new(|info| {
            if me().is_some() {
                bad(&format!("panicked: {info}"));
            }
        }));
        std::thread::spawn(|| {
            let (mut last, mut since) = (0, Instant::now());
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let now = PROGRESS.load(Relaxed);
                if now != last || !ACTIVE.load(Relaxed) {
                    (last, since) = (now, Instant::now());
                } else if since.elapsed() > Duration::from_secs(90) {
                    bad("the program hangs");
                }
            }
        });
        Explorer { stats: Stats::default(), started: Instant::now() }
    }

    fn once(&mut self, p: &Program<'_>, observed: bool) {
        let r = rt();
        for i in 0..r.bump {
            r.owner[i] = 0;
        }
        r.bump = 0;
        r.allocs.clear();
        r.sync.clear();
        r.elsewhere.clear();
        r.events.clear();
        r.objects.clear();
        r.outcome.clear();
        r.n = p.threads;
        (r.preemptions, r.points, r.run_length, r.depth) = (0, 0, 0, 0);
        for t in 0..THREADS {
            r.state[t] = if t >= 1 && t <= p.threads { State::Ready } else { State::Done };
            r.timed[t] = false;
            r.expired[t] = false;
            r.vc[t] = [0; THREADS];
            r.vc[t][t] = 1;
            (r.seen[t], r.published[t]) = ([0; THREADS], [0; THREADS]);
        }
        PROGRESS.fetch_add(1, Relaxed);
        r.memory = observed;
        ACTIVE.store(true, SeqCst);
        let state = (p.setup)();
        {
            let _off = off();
            let mine = r.vc[0];
            for t in 1..=p.threads {
                join(&mut r.vc[t], &mine);
            }
            r.vc[0][0] += 1;
            unsafe { JOB = Some((state, std::mem::transmute(p.body))) };
            let options: Vec<usize> = (1..=p.threads).collect();
            let first = choose(&options);
            r.events.push((0, Event::Switch(first)));
            signal(first);
            wait(0);
            for t in 1..=p.threads {
                let theirs = r.vc[t];
                join(&mut r.vc[0], &theirs);
            }
        }
        (p.finish)(state);
        if observed {
            let _off = off();
            for (id, o) in &r.objects {
                if o.drops != 1 {
                    bad(&format!("object {id} was destroyed {} times when all of its handles were gone", o.drops));
                }
                if o.holders != 0 {
                    check_error("the handles of an object are not counted right");
                }
            }
            if let Some(i) = r.allocs.iter().position(|a| a.live) {
                bad(&format!("{} bytes (allocation #{i}) are leaked", r.allocs[i].layout.size()));
            }
        }
        ACTIVE.store(false, SeqCst);
    }

    /// All schedules of `p` with at most `bound` preemptions; `fixed`: only this one.
    pub fn explore(&mut self, p: &Program<'_>, bound: u32, case: &str, fixed: Option<&[u16]>) {
        let r = rt();
        r.bound = bound;
        r.case = case.to_owned();
        r.program = p.name.clone();
        r.trace.clear();
        r.fixed = 0;
        // (Once unobserved, for what is initialised lazily and stays.)
        self.once(p, false);
        r.trace.clear();
        if let Some(f) = fixed {
            r.trace = f.iter().map(|&c| Choice { chosen: c, width: 0 }).collect();
            r.fixed = f.len();
            self.once(p, true);
            return;
        }
        self.stats.programs += 1;
        loop {
            self.once(p, true);
            self.stats.executions += 1;
            self.stats.points += r.points;
            self.stats.preempted += (r.preemptions > 0) as u64;
            self.stats.longest = self.stats.longest.max(r.depth);
            let mut h = 0xcbf2_9ce4_8422_2325u64;
            for x in p.name.bytes().map(u64::from).chain(r.outcome.iter().copied()) {
                h = (h ^ x).wrapping_mul(0x100_0000_01b3);
            }
            self.stats.outcomes.insert(h);
            while let Some(c) = r.trace.last_mut() {
                if c.chosen + 1 < c.width {
                    c.chosen += 1;
                    break;
                }
                r.trace.pop();
            }
            if r.trace.is_empty() {
                return;
            }
        }
    }
}
