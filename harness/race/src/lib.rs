//! The programs of C04. (Compiled with `-Zsanitizer=thread`: every access is seen by `sched`.)

mod handles;
mod tasks;

use sched::{check, hold, note, Explorer, Program};
use std::cell::UnsafeCell;

/// What is shared: counted, and poisoned when destroyed.
pub struct Res {
    pub id: u64,
    pub data: [u8; LEN],
}
pub const LEN: usize = 48;
pub const DATA: [u8; LEN] = {
    let mut d = [0; LEN];
    let mut i = 0;
    while i < LEN {
        d[i] = i as u8 + 1;
        i += 1;
    }
    d
};
impl Res {
    pub fn new(id: u64) -> Res {
        hold(id, 0);
        Res { id, data: DATA }
    }
    pub fn look(&self) -> u8 {
        let mut sum = 0u8;
        for i in [0, 17, LEN - 1] {
            let x = unsafe { std::ptr::read_volatile(&self.data[i]) };
            check(x == i as u8 + 1, "the contents of a shared resource changed while a handle was alive");
            sum = sum.wrapping_add(x);
        }
        sum
    }
}
impl Drop for Res {
    fn drop(&mut self) {
        sched::destroyed(self.id);
        self.look();
        for x in &mut self.data {
            unsafe { std::ptr::write_volatile(x, 0xEE) };
        }
    }
}

pub struct Op<H> {
    pub name: &'static str,
    /// How many handles of the thread it needs, and how the number changes.
    pub needs: usize,
    pub adds: isize,
    pub run: fn(&mut Vec<H>, Option<&H>),
}

/// A kind of handle.
pub trait Kind {
    type H: 'static;
    const NAME: &'static str;
    /// Handles are counted as holders of object 1.
    const COUNTED: bool = true;
    fn make() -> Self::H;
    fn copy(h: &Self::H) -> Self::H;
    fn look(h: &Self::H);
    fn more() -> Vec<Op<Self::H>> {
        vec![]
    }
}

fn held<K: Kind>(n: i64) {
    if K::COUNTED {
        hold(1, n)
    }
}
pub fn copy<K: Kind>(h: &K::H) -> K::H {
    held::<K>(1);
    K::copy(h)
}
pub fn give_up<K: Kind>(h: K::H) {
    K::look(&h);
    held::<K>(-1);
    drop(h)
}

fn ops<K: Kind>() -> Vec<Op<K::H>> {
    let mut ops: Vec<Op<K::H>> = vec![
        Op { name: "use", needs: 1, adds: 0, run: |s, _| K::look(s.last().unwrap()) },
        Op { name: "clone", needs: 1, adds: 1, run: |s, _| s.push(copy::<K>(s.last().unwrap())) },
        Op { name: "drop", needs: 1, adds: -1, run: |s, _| give_up::<K>(s.pop().unwrap()) },
    ];
    ops.extend(K::more());
    ops
}
/// What a thread can do with a handle that the main thread owns.
fn shared_ops<K: Kind>() -> Vec<Op<K::H>> {
    let mut all: Vec<Op<K::H>> = vec![
        Op { name: "clone the shared handle", needs: 0, adds: 1, run: |s, x| s.push(copy::<K>(x.unwrap())) },
        Op { name: "use the shared handle", needs: 0, adds: 0, run: |_, x| K::look(x.unwrap()) },
    ];
    all.extend(ops::<K>().into_iter().filter(|o| o.needs > 0));
    all
}

/// All applicable sequences of `depth` operations for a thread that starts with `own` handles.
fn sequences<H>(ops: &[Op<H>], depth: usize, own: usize) -> Vec<Vec<usize>> {
    if depth == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for (i, o) in ops.iter().enumerate() {
        if o.needs <= own {
            for mut rest in sequences(ops, depth - 1, (own as isize + o.adds) as usize) {
                rest.insert(0, i);
                out.push(rest);
            }
        }
    }
    out
}

struct State<H> {
    own: Vec<UnsafeCell<Vec<H>>>,
    shared: Option<H>,
}

pub struct Run<'a> {
    pub ex: Explorer,
    pub thorough: bool,
    /// This process explores the programs whose number is `part` modulo `parts`.
    pub part: usize,
    pub parts: usize,
    pub number: usize,
    pub replay: Option<(&'a str, usize, Vec<u16>)>,
    pub phases: Vec<String>,
}
impl Run<'_> {
    pub fn program(&mut self, phase: &str, bound: u32, p: &Program<'_>) {
        let n = self.number;
        self.number += 1;
        let case = format!("CASE phase={phase} top={n}");
        if let Some((ph, top, choices)) = &self.replay {
            if *ph == phase && *top == n {
                self.ex.explore(p, bound, &case, Some(choices));
            }
        } else if n % self.parts == self.part {
            self.ex.explore(p, bound, &case, None);
        }
    }
    pub fn phase(&mut self, name: &str, f: impl FnOnce(&mut Self)) {
        let before = (self.ex.stats.programs, self.ex.stats.executions);
        let at = std::time::Instant::now();
        self.number = 0;
        f(self);
        if std::env::var_os("VP_VERBOSE").is_some() {
            eprintln!("{name}: {} programs {} schedules {:.2} s", self.ex.stats.programs - before.0, self.ex.stats.executions - before.1, at.elapsed().as_secs_f64());
        }
        self.phases.push(format!(
            "{{\"phase\":\"{name}\",\"programs\":{},\"schedules\":{},\"seconds\":{:.1}}}",
            self.ex.stats.programs - before.0,
            self.ex.stats.executions - before.1,
            at.elapsed().as_secs_f64()
        ));
    }

    /// Every program of `threads` threads with `depth` operations each, all schedules with at most `bound` preemptions.
    fn kind<K: Kind>(&mut self, threads: usize, depth: usize, bound: u32, shared: bool) {
        let phase = format!("{},{}threads,{}ops{}", K::NAME, threads, depth, if shared { ",shared" } else { "" });
        self.phase(&phase.clone(), |run| {
            let all = if shared { shared_ops::<K>() } else { ops::<K>() };
            let seqs = sequences(&all, depth, !shared as usize);
            let mut pick = vec![0; threads];
            loop {
                let describe: Vec<String> = pick.iter().map(|&i| seqs[i].iter().map(|&o| all[o].name).collect::<Vec<_>>().join(", ")).collect();
                run.program(
                    &phase,
                    bound,
                    &Program {
                        name: format!("{phase}: {}", describe.join(" | ")),
                        threads,
                        setup: &|| {
                            held::<K>(1);
                            let first = K::make();
                            let mut own = Vec::new();
                            let mut main = Some(first);
                            for i in 0..threads {
                                own.push(UnsafeCell::new(if shared {
                                    vec![]
                                } else if i + 1 < threads {
                                    vec![copy::<K>(main.as_ref().unwrap())]
                                } else {
                                    vec![main.take().unwrap()]
                                }));
                            }
                            Box::into_raw(Box::new(State::<K::H> { own, shared: main })) as *mut ()
                        },
                        body: &|s, t| {
                            let s = unsafe { &*(s as *const State<K::H>) };
                            let mut stack = std::mem::take(unsafe { &mut *s.own[t - 1].get() });
                            for &o in &seqs[pick[t - 1]] {
                                note(all[o].name);
                                (all[o].run)(&mut stack, s.shared.as_ref());
                            }
                            while let Some(h) = stack.pop() {
                                note("drop what is left");
                                give_up::<K>(h);
                            }
                        },
                        finish: &|s| {
                            let s = unsafe { Box::from_raw(s as *mut State<K::H>) };
                            if let Some(h) = s.shared {
                                note("drop the shared handle");
                                give_up::<K>(h);
                            }
                        },
                    },
                );
                // (Threads are alike: only non-decreasing picks.)
                let Some(i) = (0..threads).rev().find(|&i| pick[i] + 1 < seqs.len()) else { break };
                let v = pick[i] + 1;
                pick[i..].iter_mut().for_each(|p| *p = v);
            }
        });
    }

    pub fn both<K: Kind>(&mut self) {
        for shared in [false, true] {
            if self.thorough {
                self.kind::<K>(2, 1, 5, shared);
                self.kind::<K>(2, 2, 3, shared);
                self.kind::<K>(2, 3, 1, shared);
                self.kind::<K>(3, 1, 3, shared);
                self.kind::<K>(3, 2, 1, shared);
            } else {
                self.kind::<K>(2, 1, 3, shared);
                self.kind::<K>(2, 2, 2, shared);
                self.kind::<K>(3, 1, 2, shared);
            }
        }
    }
}

pub fn main() {
    let args: Vec<String> = std::env::args().collect();
    let value = |name: &str| args.iter().position(|a| a == name);
    let (mut part, mut parts) = (0, 1);
    if let Some(i) = value("--part") {
        let (a, b) = args[i + 1].split_once('/').unwrap();
        (part, parts) = (a.parse().unwrap(), b.parse().unwrap());
    }
    let replay = value("--replay").map(|i| {
        let choices = args[i + 3].split(',').filter(|c| *c != "-" && !c.is_empty()).map(|c| c.parse().unwrap()).collect();
        (args[i + 1].as_str(), args[i + 2].parse().unwrap(), choices)
    });
    let mut run = Run { ex: Explorer::new(Some(part)), thorough: args.iter().any(|a| a == "thorough"), part, parts, number: 0, replay, phases: vec![] };
    handles::all(&mut run);
    tasks::all(&mut run);
    if run.replay.is_some() {
        println!("the execution is not a violation");
        return;
    }
    let s = &run.ex.stats;
    println!(
        "RESULT {{\"programs\":{},\"schedules\":{},\"preempted\":{},\"points\":{},\"distinct_outcomes\":{},\"longest\":{},\"seconds\":{:.1},\"phases\":[{}]}}",
        s.programs,
        s.executions,
        s.preempted,
        s.points,
        s.outcomes.len(),
        s.longest,
        run.ex.started.elapsed().as_secs_f64(),
        run.phases.join(",")
    );
}
