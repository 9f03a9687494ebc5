//! Tasks handed from thread to thread: thread 1 spawns one on an executor behind a `VirtualPtr`, thread 2 is the
//! executor's worker, and thread 3 (if any) is what the task waits for.

use super::*;
use crate::handles::Exec;
use safer_ffi::{closure::arc::ArcDynFn0, dyn_traits::futures::*, prelude::*};
use std::{
    future::Future,
    pin::Pin,
    sync::{
        atomic::{AtomicU32, Ordering::*},
        Arc,
    },
    task::{Context, Poll, Wake, Waker},
};

// ---------------------------------------------------------------- blocking

/// What a thread can wait for. (Not std's parking, as std is not instrumented.)
#[derive(Default)]
pub struct Event(AtomicU32);
extern "C" {
    fn syscall(n: usize, a: *const AtomicU32, op: usize, v: usize, time: usize, e: usize, f: usize) -> isize;
}
impl Event {
    fn wait(&self) {
        while self.0.swap(0, AcqRel) == 0 {
            unsafe { syscall(202, &self.0, 128, 0, 0, 0, 0) };
        }
    }
    fn signal(&self) {
        self.0.swap(1, AcqRel);
        unsafe { syscall(202, &self.0, 129, 1, 0, 0, 0) };
    }
}
impl Wake for Event {
    fn wake(self: Arc<Self>) {
        self.signal()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.signal()
    }
}
fn block_on<F: Future>(f: F) -> F::Output {
    let event = Arc::new(Event::default());
    let waker = Waker::from(event.clone());
    let mut cx = Context::from_waker(&waker);
    futures::pin_mut!(f);
    loop {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
        event.wait();
    }
}

/// A cell that is empty or full.
struct Slot<T> {
    state: AtomicU32,
    value: UnsafeCell<Option<T>>,
    filled: Event,
}
unsafe impl<T: Send> Sync for Slot<T> {}
impl<T> Slot<T> {
    fn new() -> Self {
        Slot { state: AtomicU32::new(0), value: UnsafeCell::new(None), filled: Event::default() }
    }
    fn put(&self, x: T) {
        unsafe { *self.value.get() = Some(x) };
        check(self.state.swap(1, Release) == 0, "a slot is filled twice");
        self.filled.signal();
    }
    fn take(&self) -> T {
        while self.state.swap(0, Acquire) == 0 {
            self.filled.wait();
        }
        unsafe { &mut *self.value.get() }.take().unwrap()
    }
}

// ---------------------------------------------------------------- the executor

enum Task {
    Poll(VirtualPtr<dyn 'static + Send + FfiFuture>, futures::channel::oneshot::Sender<()>),
    Call(repr_c::Box<dyn 'static + Send + FnMut()>, futures::channel::oneshot::Sender<()>),
}
/// Hands tasks to its only worker.
struct Pool {
    res: Res,
    queue: Slot<Task>,
}
impl Pool {
    fn join(rx: futures::channel::oneshot::Receiver<()>) -> VirtualPtr<dyn 'static + Send + FfiFuture> {
        Box::pin(async move {
            rx.await.ok();
        })
        .into()
    }
}
impl FfiFutureExecutor for Pool {
    fn dyn_spawn(&self, f: VirtualPtr<dyn 'static + Send + FfiFuture>) -> VirtualPtr<dyn 'static + Send + FfiFuture> {
        self.res.look();
        let (tx, rx) = futures::channel::oneshot::channel();
        self.queue.put(Task::Poll(f, tx));
        Self::join(rx)
    }
    fn dyn_spawn_blocking(&self, f: repr_c::Box<dyn 'static + Send + FnMut()>) -> VirtualPtr<dyn 'static + Send + FfiFuture> {
        self.res.look();
        let (tx, rx) = futures::channel::oneshot::channel();
        self.queue.put(Task::Call(f, tx));
        Self::join(rx)
    }
    fn dyn_block_on(&self, f: VirtualPtr<dyn '_ + FfiFuture>) {
        self.res.look();
        block_on(f.into_future())
    }
}

// ---------------------------------------------------------------- what is spawned

/// Set once, by thread 3.
struct Gate {
    open: AtomicU32,
    waker: Slot<Notify>,
}
enum Notify {
    Rust(Waker),
    /// As C and C++ get it.
    Foreign(ArcDynFn0<()>),
}
extern "C" {
    fn rust_future_task_context_get_waker(cx: *const Context<'_>) -> ArcDynFn0<()>;
    fn rust_future_task_context_wake(cx: *const Context<'_>);
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Work {
    Ready,
    Yields,
    YieldsAsC,
    Waits,
    WaitsAsC,
    Blocking,
}
/// Owns object 2 until it is done, and makes object 3.
struct Job {
    work: Work,
    polls: u32,
    mine: Option<Res>,
    gate: Arc<Gate>,
}
impl Future for Job {
    type Output = Res;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Res> {
        self.polls += 1;
        self.mine.as_ref().expect("polled again after it was ready").look();
        match self.work {
            Work::Yields if self.polls == 1 => {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            Work::YieldsAsC if self.polls == 1 => {
                unsafe { rust_future_task_context_wake(cx) };
                return Poll::Pending;
            }
            Work::Waits | Work::WaitsAsC if self.gate.open.load(Acquire) == 0 => {
                if self.polls == 1 {
                    self.gate.waker.put(if self.work == Work::Waits {
                        Notify::Rust(cx.waker().clone())
                    } else {
                        Notify::Foreign(unsafe { rust_future_task_context_get_waker(cx) })
                    });
                }
                return Poll::Pending;
            }
            _ => {}
        }
        drop(self.mine.take());
        Poll::Ready(Res::new(3))
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Caller {
    Awaits,
    BlocksOn,
    PollsThenDrops,
    DropsTheJoinHandle,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Worker {
    Runs,
    PollsOnceThenDrops,
    Drops,
}

struct World {
    exec: UnsafeCell<Option<Exec>>,
    pool: UnsafeCell<Option<Arc<Pool>>>,
    gate: Arc<Gate>,
}

fn caller(s: &World, work: Work, how: Caller, worker: Worker) {
    let exec = unsafe { &mut *s.exec.get() }.take().unwrap();
    let mine = Res::new(2);
    let done = |r: Option<Res>| {
        match &r {
            Some(r) => {
                check(worker == Worker::Runs || matches!(work, Work::Ready) && worker == Worker::PollsOnceThenDrops, "a cancelled task has a result");
                check(r.id == 3, "a task has another task's result");
                r.look();
                sched::outcome(3);
            }
            None => {
                check(worker != Worker::Runs, "a task that ran has no result");
                sched::outcome(4);
            }
        }
        drop(r)
    };
    macro_rules! go {
        ($join:expr, $f:expr) => {{
            let join = $join;
            match how {
                Caller::Awaits => done($f(block_on(join))),
                Caller::BlocksOn => done($f(exec.block_on(join))),
                Caller::PollsThenDrops => {
                    let waker = futures::task::noop_waker();
                    let mut join = Box::pin(join);
                    if let Poll::Ready(r) = join.as_mut().poll(&mut Context::from_waker(&waker)) {
                        done($f(r))
                    } else {
                        sched::outcome(5)
                    }
                }
                Caller::DropsTheJoinHandle => drop(join),
            }
        }};
    }
    if work == Work::Blocking {
        go!(
            exec.spawn_blocking(move || {
                mine.look();
                drop(mine);
                Res::new(3)
            }),
            |r: Result<Res, _>| r.ok()
        );
    } else {
        go!(exec.spawn(Job { work, polls: 0, mine: Some(mine), gate: s.gate.clone() }), Some);
    }
    drop(exec);
}

fn worker(s: &World, how: Worker) {
    let pool = unsafe { &mut *s.pool.get() }.take().unwrap();
    match (pool.queue.take(), how) {
        (Task::Poll(f, tx), Worker::Runs) => {
            block_on(f.into_future());
            tx.send(()).ok();
        }
        (Task::Poll(f, tx), Worker::PollsOnceThenDrops) => {
            let waker = futures::task::noop_waker();
            let mut f = Box::pin(f.into_future());
            let _ = f.as_mut().poll(&mut Context::from_waker(&waker));
            drop(f);
            drop(tx);
        }
        (Task::Call(mut f, tx), Worker::Runs) => {
            f.call();
            drop(f);
            tx.send(()).ok();
        }
        (task, _) => drop(task),
    }
    pool.res.look();
    drop(pool);
}

fn opener(s: &World) {
    let waker = s.gate.waker.take();
    s.gate.open.store(1, Release);
    match waker {
        Notify::Rust(w) => w.wake(),
        Notify::Foreign(f) => f.call(),
    }
}

pub fn all(run: &mut Run<'_>) {
    for (threads, works) in [(2, &[Work::Ready, Work::Yields, Work::YieldsAsC, Work::Blocking][..]), (3, &[Work::Waits, Work::WaitsAsC])] {
        let phase = format!("tasks,{threads}threads");
        let bound = match (threads, run.thorough) {
            (2, false) => 3,
            (2, true) => 4,
            (_, false) => 2,
            (_, true) => 3,
        };
        run.phase(&phase.clone(), |run| {
            for &work in works {
                for how in [Caller::Awaits, Caller::BlocksOn, Caller::PollsThenDrops, Caller::DropsTheJoinHandle] {
                    for w in [Worker::Runs, Worker::PollsOnceThenDrops, Worker::Drops] {
                        // (`spawn`'s future panics by design when the task was dropped; a task that waits must be polled.)
                        let cancelled = w == Worker::Drops || w == Worker::PollsOnceThenDrops && work != Work::Ready;
                        if cancelled && how != Caller::DropsTheJoinHandle && work != Work::Blocking || threads == 3 && w == Worker::Drops || work == Work::Blocking && w == Worker::PollsOnceThenDrops {
                            continue;
                        }
                        run.program(
                            &phase,
                            bound,
                            &Program {
                                name: format!("{phase}: the task is {work:?}; thread 1 spawns it and {how:?}; thread 2 {w:?}"),
                                threads,
                                setup: &|| {
                                    let pool = Arc::new(Pool { res: Res::new(1), queue: Slot::new() });
                                    let world = World {
                                        exec: UnsafeCell::new(Some(pool.clone().into())),
                                        pool: UnsafeCell::new(Some(pool)),
                                        gate: Arc::new(Gate { open: AtomicU32::new(0), waker: Slot::new() }),
                                    };
                                    Box::into_raw(Box::new(world)) as *mut ()
                                },
                                body: &|s, t| {
                                    let s = unsafe { &*(s as *const World) };
                                    match t {
                                        1 => caller(s, work, how, w),
                                        2 => worker(s, w),
                                        _ => opener(s),
                                    }
                                },
                                finish: &|s| {
                                    drop(unsafe { Box::from_raw(s as *mut World) });
                                },
                            },
                        );
                    }
                }
            }
        });
    }
}
