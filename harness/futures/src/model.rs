//! A model executor: every decision it takes (which task to poll, which event to let happen, which task to drop, whether
//! to poll without need) is explored.
use super::*;
use safer_ffi::boxed::Box_;
use safer_ffi::closure::boxed::BoxDynFnMut0;

type Fut = VirtualPtr<dyn 'static + Send + FfiFuture>;
type Action = repr_c::Box<dyn 'static + Send + FnMut()>;

enum Work {
    Async(Fut),
    Blocking(Action),
}
struct Task {
    work: Option<Work>,
    running: bool,
    /// What whoever joins it is told.
    joined: bool,
    completed: bool,
    dropped: bool,
    aborted: bool,
    gen: u32,
    ready: bool,
    join: Option<Waker>,
}
struct Root {
    gen: u32,
    ready: bool,
}
#[derive(Default)]
struct World {
    tasks: Vec<Task>,
    roots: Vec<Root>,
    execs: i32,
    enters: i32,
    entered: u32,
    spurious: usize,
    cancels: usize,
    bail: bool,
    steps: usize,
    bad: Option<String>,
}
thread_local!(static W: RefCell<World> = RefCell::new(World::default()));
pub fn reset() {
    let old = W.with(|w| w.replace(World::default()));
    std::mem::forget(old);
}
fn w<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|w| f(&mut w.borrow_mut()))
}

struct Signal {
    task: Result<usize, usize>,
    gen: u32,
}
impl Wake for Signal {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        w(|w| match self.task {
            // Only the waker of the latest poll counts.
            Ok(i) => w.tasks[i].ready |= w.tasks[i].gen == self.gen,
            Err(r) => {
                if let Some(root) = w.roots.get_mut(r) {
                    root.ready |= root.gen == self.gen
                }
            },
        })
    }
}

/// Kinds of executors: PLAIN; one with something to ENTER; one that is LAZY: a task only runs while it is being joined;
/// and one that ABORTS the task whose join future is dropped.
pub struct Exec<const KIND: u8>;
const PLAIN: u8 = 0;
const ENTERS: u8 = 1;
const LAZY: u8 = 2;
const ABORTS: u8 = 3;
impl<const E: u8> Exec<E> {
    fn new() -> Self {
        w(|w| w.execs += 1);
        Exec
    }
}
impl<const E: u8> Clone for Exec<E> {
    fn clone(&self) -> Self {
        Self::new()
    }
}
impl<const E: u8> Drop for Exec<E> {
    fn drop(&mut self) {
        w(|w| w.execs -= 1)
    }
}
struct Entered;
impl Drop for Entered {
    fn drop(&mut self) {
        w(|w| w.enters -= 1)
    }
}
struct Join(usize, bool);
impl Future for Join {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let mut old = None;
        let r = w(|w| {
            let t = &mut w.tasks[self.0];
            if t.joined {
                Poll::Ready(())
            } else {
                old = t.join.replace(cx.waker().clone());
                Poll::Pending
            }
        });
        drop(old);
        r
    }
}
impl Drop for Join {
    fn drop(&mut self) {
        let old = w(|w| w.tasks.get_mut(self.0).and_then(|t| t.join.take()));
        drop(old);
        if self.1 {
            let work = w(|w| {
                let t = w.tasks.get_mut(self.0)?;
                t.aborted = true;
                t.dropped |= t.work.is_some();
                t.work.take()
            });
            drop(work);
        }
    }
}
fn spawn(work: Work, kind: u8) -> Fut {
    if kind == LAZY {
        return match work {
            Work::Async(f) => f,
            Work::Blocking(mut a) => Box::pin(async move { a.call() }).into(),
        };
    }
    let i = w(|w| {
        let t = Task { work: Some(work), running: false, joined: false, completed: false, dropped: false, aborted: false, gen: 0, ready: true, join: None };
        track::off(|| w.tasks.push(t));
        w.tasks.len() - 1
    });
    ch().log(|| format!("task {i} is spawned"));
    Box::pin(Join(i, kind == ABORTS)).into()
}
macro_rules! exec {($E:ident $($enter:tt)*) => (
    impl FfiFutureExecutor for Exec<$E> {
        fn dyn_spawn(self: &'_ Self, future: VirtualPtr<dyn 'static + Send + FfiFuture>) -> VirtualPtr<dyn 'static + Send + FfiFuture> {
            spawn(Work::Async(future), $E)
        }
        fn dyn_spawn_blocking(self: &'_ Self, action: repr_c::Box<dyn 'static + Send + FnMut()>) -> VirtualPtr<dyn 'static + Send + FfiFuture> {
            spawn(Work::Blocking(action), $E)
        }
        fn dyn_block_on(self: &'_ Self, future: VirtualPtr<dyn '_ + FfiFuture>) {
            block_on(future)
        }
        $($enter)*
    }
)}
exec!(PLAIN);
exec!(LAZY);
exec!(ABORTS);
exec!(ENTERS
    fn dyn_enter(self: &'_ Self) -> VirtualPtr<dyn '_ + DropGlue> {
        w(|w| {
            w.enters += 1;
            w.entered += 1;
        });
        Box::new(ImplDropGlue(Entered)).into()
    }
);

#[derive(Clone, Copy, Debug)]
enum Opt {
    Root,
    Task(usize),
    Ring(usize),
    SpuriousRoot,
    SpuriousTask(usize),
    /// Drop the task, then tell the joiner / the other way around.
    DropThenTell(usize),
    Tell(usize),
    Drop(usize),
    Bail,
}
fn options(root: Option<usize>) -> Vec<Opt> {
    track::off(|| {
        let mut v = vec![];
        w(|w| {
            if let Some(r) = root {
                if w.roots[r].ready {
                    v.push(Opt::Root)
                }
            }
            for (i, t) in w.tasks.iter().enumerate() {
                if t.work.is_some() && t.ready {
                    v.push(Opt::Task(i))
                }
            }
        });
        EVENTS.with(|e| v.extend(e.borrow().iter().map(|x| Opt::Ring(x.0))));
        let needed = v.len();
        w(|w| {
            if w.cancels > 0 {
                for (i, t) in w.tasks.iter().enumerate() {
                    if t.work.is_some() && !t.running {
                        v.push(Opt::DropThenTell(i));
                        if !t.joined {
                            v.push(Opt::Tell(i));
                        }
                    }
                }
            }
            for (i, t) in w.tasks.iter().enumerate() {
                if t.work.is_some() && !t.running && t.joined {
                    v.push(Opt::Drop(i));
                }
            }
            // (Nothing to be gained from these where nothing else is left to do.)
            if needed > 0 && w.spurious > 0 {
                if root.is_some() {
                    v.push(Opt::SpuriousRoot)
                }
                for (i, t) in w.tasks.iter().enumerate() {
                    if matches!(t.work, Some(Work::Async(_))) && !t.ready {
                        v.push(Opt::SpuriousTask(i))
                    }
                }
            }
            if w.bail && root.is_some() && w.roots.len() == 1 {
                v.push(Opt::Bail)
            }
        });
        v
    })
}
fn tell(i: usize) {
    let j = w(|w| {
        w.tasks[i].joined = true;
        w.tasks[i].join.take()
    });
    if let Some(j) = j {
        j.wake()
    }
}
/// One step of the executor (but for polling a root).
fn step(o: Opt) {
    ch().step();
    ch().log(|| format!("{o:?}"));
    let c = ch();
    c.state(w(|w| {
        let ts: u64 = w.tasks.iter().fold(7, |h, t| {
            hash_of(&(h, t.work.is_some(), t.running, t.joined, t.completed, t.dropped, t.ready, t.join.is_some()))
        });
        hash_of(&(c.top, ts, w.spurious, w.cancels, w.roots.len(), OBS.with(|o| o.get().iter().fold(0, |h, o| hash_of(&(h, o.polls, o.drops, o.done))))))
    }));
    match o {
        Opt::Task(i) | Opt::SpuriousTask(i) => {
            let (work, gen) = w(|w| {
                if matches!(o, Opt::SpuriousTask(_)) {
                    w.spurious -= 1
                }
                let t = &mut w.tasks[i];
                t.running = true;
                t.ready = false;
                t.gen += 1;
                (t.work.take().unwrap(), t.gen)
            });
            let finished = match work {
                Work::Async(mut f) => {
                    let waker: Waker = Arc::new(Signal { task: Ok(i), gen }).into();
                    match Pin::new(&mut f).dyn_poll(&mut Context::from_waker(&waker)) {
                        PollFuture::Completed => true,
                        PollFuture::Pending => {
                            if w(|w| w.tasks[i].aborted) {
                                drop(f);
                                w(|w| w.tasks[i].dropped = true);
                            } else {
                                w(|w| w.tasks[i].work = Some(Work::Async(f)));
                            }
                            false
                        },
                    }
                },
                Work::Blocking(mut a) => {
                    a.call();
                    true
                },
            };
            w(|w| w.tasks[i].running = false);
            if finished {
                w(|w| w.tasks[i].completed = true);
                tell(i)
            }
        },
        Opt::Ring(id) => {
            let a = EVENTS.with(|e| {
                let mut e = e.borrow_mut();
                let k = e.iter().position(|x| x.0 == id).unwrap();
                e.remove(k).1
            });
            a.ring()
        },
        Opt::DropThenTell(i) | Opt::Drop(i) => {
            let work = w(|w| {
                if let Opt::DropThenTell(_) = o {
                    w.cancels -= 1
                }
                w.tasks[i].dropped = true;
                w.tasks[i].work.take()
            });
            drop(work);
            if let Opt::DropThenTell(_) = o {
                tell(i)
            }
        },
        Opt::Tell(i) => {
            w(|w| w.cancels -= 1);
            tell(i)
        },
        Opt::Root | Opt::SpuriousRoot | Opt::Bail => unreachable!(),
    }
}
fn block_on(mut f: VirtualPtr<dyn '_ + FfiFuture>) {
    let r = w(|w| {
        track::off(|| w.roots.push(Root { gen: 0, ready: true }));
        w.roots.len() - 1
    });
    loop {
        let opts = options(Some(r));
        if opts.is_empty() {
            w(|w| w.bad = track::off(|| Some("nothing is left to do, and the future that is blocked on is pending: a wake-up was lost".into())));
            break;
        }
        let o = opts[ch().choose(opts.len())];
        track::off(|| drop(opts));
        w(|w| w.steps += 1);
        if w(|w| w.steps) > 200 {
            w(|w| w.bad = track::off(|| Some("no end in sight".into())));
            break;
        }
        match o {
            Opt::Root | Opt::SpuriousRoot => {
                ch().step();
                ch().log(|| format!("{o:?}"));
                let gen = w(|w| {
                    if matches!(o, Opt::SpuriousRoot) {
                        w.spurious -= 1
                    }
                    w.roots[r].ready = false;
                    w.roots[r].gen += 1;
                    w.roots[r].gen
                });
                let waker: Waker = Arc::new(Signal { task: Err(r), gen }).into();
                if Pin::new(&mut f).dyn_poll(&mut Context::from_waker(&waker)) == PollFuture::Completed {
                    break;
                }
            },
            Opt::Bail => {
                ch().log(|| "block_on returns early".into());
                w(|w| w.bail = false);
                break;
            },
            o => step(o),
        }
        if w(|w| w.bad.is_some()) {
            break;
        }
    }
    w(|w| {
        w.roots.pop();
    });
}

// ------------------------------------------------------------------ programs

type Local = VirtualPtr<dyn 'static + FfiFutureExecutor>;
type Shared = VirtualPtr<dyn 'static + Send + Sync + FfiFutureExecutor>;

/// Awaits both, polling them whenever the task is polled.
async fn both<A, B>(a: impl Future<Output = A>, b: impl Future<Output = B>) -> (A, B) {
    let mut a = Box::pin(a);
    let mut b = Box::pin(b);
    let (mut ra, mut rb) = (None, None);
    poll_fn(|cx| {
        if ra.is_none() {
            if let Poll::Ready(r) = a.as_mut().poll(cx) {
                ra = Some(r)
            }
        }
        if rb.is_none() {
            if let Poll::Ready(r) = b.as_mut().poll(cx) {
                rb = Some(r)
            }
        }
        if ra.is_some() && rb.is_some() {
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    })
    .await;
    (ra.unwrap(), rb.unwrap())
}
async fn first<A>(a: impl Future<Output = A>, b: impl Future<Output = A>) -> (A, bool) {
    let mut a = Box::pin(a);
    let mut b = Box::pin(b);
    poll_fn(|cx| {
        if let Poll::Ready(r) = a.as_mut().poll(cx) {
            return Poll::Ready((r, true));
        }
        if let Poll::Ready(r) = b.as_mut().poll(cx) {
            return Poll::Ready((r, false));
        }
        Poll::Pending
    })
    .await
}

thread_local!(static AMBIENT: RefCell<Option<Local>> = RefCell::new(None));
fn ambient_block_on<R>(f: impl Future<Output = R>) -> R {
    let e: Local = AMBIENT.with(|a| a.borrow().as_ref().unwrap().clone());
    e.block_on(f)
}
#[safer_ffi::ffi_export(executor = ambient_block_on)]
async fn exported_async(id: u32, pends: u32) -> repr_c::Box<u64> {
    let early = Val::new(7);
    ffi_await!(async move {
        let v = val(id as usize, pends as usize, 1).await;
        let other = early.id() as u64;
        Box_::new((v.id() as u64) << 8 | other)
    })
}
mod raw {
    extern "C" {
        pub fn exported_async(id: u32, pends: u32) -> *mut u64;
    }
}

fn cancelled() -> String {
    track::off(|| "a blocking task that ran was reported cancelled".into())
}
/// A program: what it is made of, and its outcome (to be compared with `expected`).
macro_rules! programs {($name:ident, $Exec:ty) => (
    fn $name(e: &$Exec, prog: usize, p: [usize; 3], ways: usize) -> Result<u64, String> {
        let t = |e: &$Exec, i: usize| e.spawn(val(i, p[i], ways));
        let same = |got: usize, want: usize| -> Result<(), String> {
            ensure!(got == want, "whoever awaited task {want} was given the output of {got}");
            Ok(())
        };
        match prog {
            0 => {
                let v = e.block_on(val(0, p[0], ways));
                same(v.id(), 0)?;
            },
            1 => {
                let v = e.block_on(async { t(e, 0).await });
                same(v.id(), 0)?;
            },
            2 => {
                let (a, b) = e.block_on(async {
                    let (a, b) = (t(e, 0), t(e, 1));
                    let a = a.await;
                    (a, b.await)
                });
                same(a.id(), 0)?;
                same(b.id(), 1)?;
            },
            3 => {
                let (a, b) = e.block_on(async {
                    let (a, b) = (t(e, 0), t(e, 1));
                    let b = b.await;
                    (a.await, b)
                });
                same(a.id(), 0)?;
                same(b.id(), 1)?;
            },
            4 => {
                let (a, b) = e.block_on(both(t(e, 0), t(e, 1)));
                same(a.id(), 0)?;
                same(b.id(), 1)?;
            },
            5 => {
                // Detached.
                let b = e.block_on(async {
                    drop(t(e, 0));
                    t(e, 1).await
                });
                same(b.id(), 1)?;
            },
            6 => {
                // A task that spawns and awaits a task.
                let e2 = e.clone();
                let (a, b) = e.block_on(e.spawn(async move {
                    let inner = e2.spawn(val(0, p[0], ways));
                    drop(e2);
                    let b = val(1, p[1], ways).await;
                    (inner.await, b)
                }));
                same(a.id(), 0)?;
                same(b.id(), 1)?;
            },
            7 => {
                let kept = Val::new(4);
                let r = e.block_on(e.spawn_blocking(move || (kept, Val::new(2))));
                let (kept, v) = r.map_err(|_| cancelled())?;
                same(kept.id(), 4)?;
                same(v.id(), 2)?;
            },
            8 => {
                let (r, b) = e.block_on(both(e.spawn_blocking(|| Val::new(2)), t(e, 1)));
                same(r.map_err(|_| cancelled())?.id(), 2)?;
                same(b.id(), 1)?;
            },
            9 => {
                let (v, is_a) = e.block_on(first(t(e, 0), t(e, 1)));
                same(v.id(), if is_a { 0 } else { 1 })?;
            },
            10 => {
                // Blocking on a future within a blocking task.
                let e2 = e.clone();
                let r = e.block_on(e.spawn_blocking(move || e2.block_on(val(0, p[0], ways))));
                same(r.map_err(|_| cancelled())?.id(), 0)?;
            },
            11 => {
                let before = w(|w| w.entered);
                let guard = e.enter();
                let held = w(|w| (w.entered - before, w.enters));
                let v = e.block_on(async {
                    let inner = e.enter();
                    let a = t(e, 0).await;
                    drop(inner);
                    a
                });
                same(v.id(), 0)?;
                ensure!(w(|w| w.enters) == held.1, "the guards of enter: {} left, expected {}", w(|w| w.enters), held.1);
                drop(guard);
                ensure!(w(|w| w.enters) == 0, "the guard of enter was not dropped");
                ensure!(held.0 as i32 == held.1, "enter: {held:?}");
            },
            12 => {
                // A handle that is awaited by another task.
                let a = t(e, 0);
                let b = e.block_on(e.spawn(async move {
                    let a = a.await;
                    (a, val(1, p[1], ways).await)
                }));
                same(b.0.id(), 0)?;
                same(b.1.id(), 1)?;
            },
            13 => {
                // Three, of different types.
                let (a, (b, c)) = e.block_on(both(
                    e.spawn(async move { (val(0, p[0], ways).await, [1u8; 3]) }),
                    both(e.spawn(async move { val(1, p[1], 1).await.id() as u8 }), e.spawn(async move { drop(val(2, 0, 1).await) })),
                ));
                same(a.0.id(), 0)?;
                ensure!(a.1 == [1; 3] && b == 1, "outputs of other types: {:?}, {b}", a.1);
                let () = c;
            },
            14 => {
                // Spawned, and neither awaited nor blocked on while alive.
                drop(e.spawn_blocking(|| Val::new(2)));
                let v = e.block_on(val(0, p[0], ways));
                same(v.id(), 0)?;
            },
            _ => unreachable!(),
        }
        Ok(prog as u64)
    }
)}
const PROGRAMS: usize = 15;
const KINDS: usize = 6;
/// How many tasks of each program are scripted.
fn scripts(prog: usize) -> usize {
    [1, 1, 2, 2, 2, 2, 2, 0, 1, 2, 1, 1, 2, 2, 1][prog]
}
programs!(on_local, Local);
programs!(on_shared, Shared);

#[derive(Clone, Copy)]
struct Params {
    pends: usize,
    ways: usize,
    spurious: usize,
    bail: bool,
}
fn wind_up() -> Res {
    // What is still there is run to its end, or dropped with the executor.
    let shutdown = w(|w| w.tasks.iter().any(|t| t.work.is_some())) && ch().choose(2) == 1;
    if shutdown {
        ch().log(|| "the executor drops what is left".into());
        let n = w(|w| w.tasks.len());
        for i in 0..n {
            let work = w(|w| w.tasks[i].work.take());
            drop(work)
        }
    } else {
        w(|w| w.spurious = 0);
        loop {
            let opts = options(None);
            if opts.is_empty() {
                break;
            }
            let o = opts[ch().choose(opts.len())];
            track::off(|| drop(opts));
            step(o);
        }
        ensure!(w(|w| w.tasks.iter().all(|t| t.work.is_none())), "a task was never woken");
    }
    Ok(())
}
fn the_end(what: &str) -> Res {
    let bad = w(|w| w.bad.take());
    if let Some(b) = bad {
        return Err(b);
    }
    for i in 0..N {
        let o = obs(i);
        ensure!(!o.bad, "{what}: future {i} was moved, polled after its end or after its drop");
        ensure!(o.drops <= 1 && (o.polls == 0 || o.drops == 1), "{what}: future {i} was polled {} times and dropped {} times", o.polls, o.drops);
    }
    check_vals(what)?;
    ensure!(w(|w| w.execs) == 0, "{what}: {} executor handles leaked", w(|w| w.execs));
    ensure!(w(|w| w.enters) == 0, "{what}: {} guards of enter leaked", w(|w| w.enters));
    EVENTS.with(|e| ensure_empty(&e.borrow()))?;
    w(|w| {
        let t = std::mem::take(&mut w.tasks);
        drop(t)
    });
    w(|w| *w = World::default());
    track::end()
}
fn ensure_empty(e: &Vec<(usize, Alarm)>) -> Res {
    ensure!(e.is_empty(), "a future that is gone still waits to be woken");
    Ok(())
}

/// top = program x number of suspensions x kind of executor handle.
fn program(c: &mut Chooser, q: Params) -> Res {
    super::reset(c);
    let prog = c.top % PROGRAMS;
    let kind = c.top / PROGRAMS % KINDS;
    let k = scripts(prog);
    let mut p = [0; 3];
    for x in p.iter_mut().take(k) {
        *x = c.choose(q.pends + 1);
    }
    c.log(|| format!("program {prog}, executor kind {kind}, suspensions {p:?}"));
    w(|w| {
        w.spurious = q.spurious;
        w.bail = q.bail
    });
    let r: Result<Result<u64, String>, ()> = track::on(|| {
        let run = || match kind {
            0 => on_local(&Box::new(Exec::<PLAIN>::new()).into(), prog, p, q.ways),
            1 => on_local(&Box::new(Exec::<ENTERS>::new()).into(), prog, p, q.ways),
            2 => on_shared(&Box::new(Exec::<ENTERS>::new()).into(), prog, p, q.ways),
            4 => on_local(&Box::new(Exec::<LAZY>::new()).into(), prog, p, q.ways),
            5 => on_local(&Box::new(Exec::<ABORTS>::new()).into(), prog, p, q.ways),
            _ => {
                let e: Shared = Arc::new(Exec::<PLAIN>::new()).into();
                let e2 = e.clone();
                drop(e);
                on_shared(&e2, prog, p, q.ways)
            },
        };
        if q.bail {
            catches(run)
        } else {
            Ok(run())
        }
    });
    if let Some(b) = w(|w| w.bad.take()) {
        return Err(b);
    }
    match r {
        Ok(r) => {
            let r = r?;
            ensure!(!q.bail || w(|w| w.bail), "block_on returned although its future was not run to completion");
            c.outcome(hash_of(&(r, w(|w| w.steps), OBS.with(|o| o.get().iter().fold(0, |h, o| hash_of(&(h, o.polls)))))));
        },
        Err(()) => {
            // (Only an executor that returned early makes for a panic.)
            ensure!(!w(|w| w.bail), "unexpected panic: {}", vc::last_panic());
            ensure!(vc::last_panic().contains("did not complete"), "unexpected panic: {}", vc::last_panic());
            w(|w| w.roots.clear());
        },
    }
    track::on(wind_up)?;
    the_end("program")
}

/// Task handles polled from outside, by an executor that may drop tasks.
fn cancel(c: &mut Chooser, pends: usize, steps: usize, cancels: usize) -> Res {
    super::reset(c);
    let what = c.top % 3;
    let left = c.top / 3 % (pends + 1);
    c.log(|| format!("{} pending {left} times", ["spawn", "spawn_blocking", "dyn_spawn"][what]));
    w(|w| w.cancels = cancels);
    let r: Res = track::on(|| {
        let e: Local = Box::new(Exec::<PLAIN>::new()).into();
        let mut h: Option<Pin<Box<dyn Future<Output = Result<Val, ()>>>>> = Some(match what {
            0 => {
                let f = e.spawn(val(0, left, 2));
                Box::pin(async move { Ok(f.await) })
            },
            1 => {
                let f = e.spawn_blocking(move || Val::new(0));
                Box::pin(async move { f.await.map_err(|_| ()) })
            },
            _ => {
                let f = e.dyn_spawn(Box::pin(async move { drop(val(0, left, 2).await) }).into());
                Box::pin(async move {
                    f.into_future().await;
                    Err(())
                })
            },
        });
        drop(e);
        w(|w| w.roots.push(Root { gen: 0, ready: true }));
        let mut budget = 1;
        for _ in 0..steps {
            let opts = options(None);
            let ready = w(|w| w.roots[0].ready);
            // 0: stop, 1: drop the handle, 2: poll it, then what the executor may do.
            let pollable = h.is_some() && (ready || budget > 0);
            let n = 3 + opts.len();
            let k = c.choose(n);
            let o = opts.get(k.wrapping_sub(3)).copied();
            track::off(|| drop(opts));
            match k {
                0 => break,
                1 => {
                    if h.is_none() {
                        break;
                    }
                    c.log(|| "drop the handle".into());
                    h = None;
                },
                2 => {
                    if !pollable {
                        break;
                    }
                    if !ready {
                        budget -= 1;
                    }
                    c.log(|| "poll the handle".into());
                    let gen = w(|w| {
                        w.roots[0].ready = false;
                        w.roots[0].gen += 1;
                        w.roots[0].gen
                    });
                    let (joined, completed, alive) = w(|w| (w.tasks[0].joined, w.tasks[0].completed, w.tasks[0].work.is_some()));
                    let waker: Waker = Arc::new(Signal { task: Err(0), gen }).into();
                    let r = catches(|| h.as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&waker)));
                    let label = format!("told {joined}, completed {completed}, alive {alive}");
                    track::off(|| ());
                    match r {
                        Ok(Poll::Pending) => {
                            ensure!(!joined || alive && what != 2, "{label}: the handle is still pending");
                        },
                        Ok(Poll::Ready(Ok(v))) => {
                            ensure!(joined && completed && what != 2, "{label}: an output");
                            ensure!(v.id() == 0, "another task's output");
                            h = None;
                        },
                        Ok(Poll::Ready(Err(()))) => {
                            ensure!(what != 0 && joined && (what == 2 || !completed && !alive), "{label}: reported cancelled");
                            h = None;
                        },
                        Err(()) => {
                            ensure!(what == 0 && joined && !completed && !alive, "{label}: unexpected panic: {}", vc::last_panic());
                            ensure!(vc::last_panic().contains("before its completion"), "unexpected panic: {}", vc::last_panic());
                            h = None;
                        },
                    }
                },
                _ => step(o.unwrap()),
            }
        }
        // A handle that has something to say has been woken.
        if h.is_some() {
            let (joined, alive, gen, ready) = w(|w| (w.tasks[0].joined, w.tasks[0].work.is_some(), w.roots[0].gen, w.roots[0].ready));
            if gen > 0 && !ready {
                ensure!(!(joined && (!alive || what == 2)), "whoever awaits the task was not woken by its end");
            }
        }
        drop(h);
        w(|w| w.roots.clear());
        c.outcome(hash_of(&(what, obs(0).polls, obs(0).done, VALS.with(|v| v.get()))));
        w(|w| w.cancels = 0);
        wind_up()
    });
    r?;
    the_end("cancel")
}

/// `#[ffi_export(executor = …)] async fn`, through its C symbol.
fn exported(c: &mut Chooser, pends: usize) -> Res {
    super::reset(c);
    let p = c.choose(pends + 1);
    let id = c.choose(3);
    w(|w| w.spurious = 1);
    let r: Res = track::on(|| {
        let e: Local = Box::new(Exec::<ENTERS>::new()).into();
        AMBIENT.with(|a| *a.borrow_mut() = Some(e));
        let r = unsafe { raw::exported_async(id as u32, p as u32) };
        AMBIENT.with(|a| a.borrow_mut().take());
        let got = unsafe { *Box::from_raw(r) };
        ensure!(got == (id as u64) << 8 | 7, "the exported function returned {got:x}");
        Ok(())
    });
    r?;
    ensure!(obs(id).polls >= p as u32 + 1 && obs(id).done, "the awaited future was not run to completion");
    c.outcome(hash_of(&(p, id, w(|w| w.steps))));
    the_end("exported")
}

pub fn phases(s: &mut Session, t: bool) {
    let _: Option<BoxDynFnMut0<()>> = None;
    let all = PROGRAMS * KINDS;
    s.phase("programs", all, |c| program(c, Params { pends: 2, ways: if t { 4 } else { 2 }, spurious: 0, bail: false }));
    s.phase("spurious polls", PROGRAMS * if t { KINDS } else { 1 }, |c| program(c, Params { pends: 1, ways: 1, spurious: if t { 2 } else { 1 }, bail: false }));
    s.phase("early return", PROGRAMS, |c| program(c, Params { pends: 1, ways: 1, spurious: 0, bail: true }));
    s.phase("cancellation", 3 * 3, |c| cancel(c, 2, if t { 14 } else { 9 }, 2));
    s.phase("exported async", 1, |c| exported(c, if t { 4 } else { 3 }));
}
