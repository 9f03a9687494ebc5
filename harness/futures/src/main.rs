//! C07: every schedule (up to a depth) of futures that cross the FFI: as objects that are polled, woken and dropped;
//! under a model executor whose every scheduling decision is explored; and every completion order under tokio.
use futures::future::poll_fn;
use safer_ffi::closure::arc::ArcDynFn0;
use safer_ffi::dyn_traits::{futures::*, DropGlue, ImplDropGlue};
use safer_ffi::prelude::*;
use std::{
    cell::{Cell, RefCell},
    future::Future,
    pin::Pin,
    sync::Arc,
    task::{Context, Poll, Wake, Waker},
};
use vc::{catches, ensure, hash_of, track, Chooser, Res, Session};

mod model;
mod tok;

#[global_allocator]
static A: track::TrackAlloc = track::TrackAlloc;

safer_ffi::ffi_export_future_helpers!();
#[allow(improper_ctypes)]
extern "C" {
    fn rust_future_task_context_wake(cx: *const Context<'_>);
    fn rust_future_task_context_get_waker(cx: *const Context<'_>) -> ArcDynFn0<()>;
}

// ------------------------------------------------------------------ what a case observes

#[derive(Default, Clone, Copy)]
pub struct Obs {
    pub polls: u32,
    pub drops: u32,
    pub done: bool,
    pub bad: bool,
}
pub const N: usize = 8;
thread_local! {
    pub static OBS: Cell<[Obs; N]> = const { Cell::new([Obs { polls: 0, drops: 0, done: false, bad: false }; N]) };
    /// What scripted futures left behind in order to be woken.
    pub static EVENTS: RefCell<Vec<(usize, Alarm)>> = const { RefCell::new(Vec::new()) };
    /// Values made and dropped.
    pub static VALS: Cell<[(u32, u32); N]> = const { Cell::new([(0, 0); N]) };
    pub static CH: Cell<*mut Chooser> = const { Cell::new(std::ptr::null_mut()) };
}
pub fn ch() -> &'static mut Chooser {
    unsafe { &mut *CH.with(|c| c.get()) }
}
pub fn obs(i: usize) -> Obs {
    OBS.with(|o| o.get()[i])
}
fn upd(i: usize, f: impl FnOnce(&mut Obs)) {
    OBS.with(|o| {
        let mut a = o.get();
        f(&mut a[i]);
        o.set(a)
    })
}
pub fn reset(c: &mut Chooser) {
    CH.with(|h| h.set(c));
    OBS.with(|o| o.set(Default::default()));
    VALS.with(|v| v.set(Default::default()));
    // (What a failed case left behind must not be touched.)
    EVENTS.with(|e| std::mem::forget(e.replace(Vec::new())));
    model::reset();
}

/// A value with an identity, which owns memory.
#[derive(Debug)]
pub struct Val(Box<u64>);
const VAL: u64 = 0xABCD_0000;
impl Val {
    pub fn new(id: usize) -> Val {
        VALS.with(|v| {
            let mut a = v.get();
            a[id].0 += 1;
            v.set(a)
        });
        Val(Box::new(VAL + id as u64))
    }
    pub fn id(&self) -> usize {
        (*self.0 - VAL) as usize
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        let id = self.id();
        VALS.with(|v| {
            let mut a = v.get();
            a[id].1 += 1;
            v.set(a)
        })
    }
}
pub fn check_vals(what: &str) -> Res {
    for (i, (made, dropped)) in VALS.with(|v| v.get()).iter().enumerate() {
        ensure!(made == dropped, "{what}: output {i} was made {made} times and dropped {dropped} times");
    }
    Ok(())
}

pub enum Alarm {
    Waker(Waker),
    Closure(ArcDynFn0<()>),
}
impl Alarm {
    fn ring(&self) {
        match self {
            Alarm::Waker(w) => w.wake_by_ref(),
            Alarm::Closure(f) => f.call(),
        }
    }
    fn another(&self) -> Alarm {
        match self {
            Alarm::Waker(w) => Alarm::Waker(w.clone()),
            Alarm::Closure(f) => Alarm::Closure(f.clone()),
        }
    }
}

/// A future that is pending `left` times, and each time arranges to be woken in one way or another.
pub struct Script {
    pub id: usize,
    pub left: usize,
    /// How many of the ways (see `suspend`) are explored.
    pub ways: usize,
    addr: usize,
    _pin: std::marker::PhantomPinned,
}
impl Script {
    pub fn new(id: usize, left: usize, ways: usize) -> Script {
        Script { id, left, ways, addr: 0, _pin: std::marker::PhantomPinned }
    }
    fn step(self: Pin<&mut Self>, cx: &mut Context<'_>) -> bool {
        let this = unsafe { self.get_unchecked_mut() };
        let here = this as *mut _ as usize;
        upd(this.id, |o| {
            o.polls += 1;
            o.bad |= o.done || o.drops > 0 || this.addr != 0 && this.addr != here;
        });
        this.addr = here;
        if this.left == 0 {
            upd(this.id, |o| o.done = true);
            return true;
        }
        this.left -= 1;
        let id = this.id;
        let way = if this.ways > 1 { ch().choose(this.ways) } else { 1 };
        ch().log(|| format!("future {id} suspends, {}", ["having woken its task", "keeping the waker", "having woken its task through the helper", "keeping the helper's closure"][way]));
        let keep = |a: Alarm| {
            // (The previous one is dropped.)
            EVENTS.with(|e| {
                let mut e = e.borrow_mut();
                e.retain(|x| x.0 != id);
                track::off(|| e.push((id, a)))
            })
        };
        match way {
            0 => cx.waker().wake_by_ref(),
            1 => keep(Alarm::Waker(cx.waker().clone())),
            2 => unsafe { rust_future_task_context_wake(cx) },
            _ => keep(Alarm::Closure(unsafe { rust_future_task_context_get_waker(cx) })),
        }
        false
    }
}
impl Drop for Script {
    fn drop(&mut self) {
        let here = self as *mut _ as usize;
        upd(self.id, |o| {
            o.drops += 1;
            o.bad |= self.addr != 0 && self.addr != here;
        });
        let id = self.id;
        let _ = EVENTS.try_with(|e| e.borrow_mut().retain(|x| x.0 != id));
    }
}
/// As a Rust future.
pub struct Rust(pub Script);
impl Future for Rust {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        match unsafe { self.map_unchecked_mut(|s| &mut s.0) }.step(cx) {
            true => Poll::Ready(()),
            false => Poll::Pending,
        }
    }
}
/// As a foreign one (no Rust `Future`).
struct Foreign(Script);
impl FfiFuture for Foreign {
    fn dyn_poll(self: Pin<&mut Self>, cx: &'_ mut Context<'_>) -> PollFuture {
        match unsafe { self.map_unchecked_mut(|s| &mut s.0) }.step(cx) {
            true => PollFuture::Completed,
            false => PollFuture::Pending,
        }
    }
}
pub async fn val(id: usize, left: usize, ways: usize) -> Val {
    Rust(Script::new(id, left, ways)).await;
    Val::new(id)
}

// ------------------------------------------------------------------ a future as an object

struct Count(std::sync::atomic::AtomicU32);
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    }
}
fn count(c: &Arc<Count>) -> u32 {
    c.0.load(std::sync::atomic::Ordering::SeqCst)
}

type Local<'a> = VirtualPtr<dyn 'a + FfiFuture>;
type Sendable<'a> = VirtualPtr<dyn 'a + Send + FfiFuture>;
#[repr(C)]
#[derive(Clone, Copy)]
struct RawObject {
    ptr: *mut (),
    release: unsafe extern "C" fn(*mut ()),
    dyn_poll: unsafe extern "C" fn(*mut (), *mut Context<'_>) -> i8,
}
enum Handle<'a> {
    Local(Local<'a>),
    Sendable(Sendable<'a>),
    Async(Pin<Box<dyn 'a + Future<Output = ()>>>),
    AsyncSend(Pin<Box<dyn 'a + Send + Future<Output = ()>>>),
    Raw(RawObject),
}
impl Handle<'_> {
    fn poll(&mut self, cx: &mut Context<'_>) -> Result<bool, String> {
        let r = match self {
            Handle::Local(v) => Pin::new(v).dyn_poll(cx),
            Handle::Sendable(v) => Pin::new(v).dyn_poll(cx),
            Handle::Async(f) => return Ok(f.as_mut().poll(cx).is_ready()),
            Handle::AsyncSend(f) => return Ok(f.as_mut().poll(cx).is_ready()),
            Handle::Raw(r) => match unsafe { (r.dyn_poll)(r.ptr, cx) } {
                0 => return Ok(true),
                -1 => return Ok(false),
                n => return Err(track::off(|| format!("the raw dyn_poll returned {n}"))),
            },
        };
        Ok(match r {
            PollFuture::Completed => true,
            PollFuture::Pending => false,
        })
    }
    fn release(self) {
        if let Handle::Raw(r) = self {
            unsafe { (r.release)(r.ptr) }
        }
    }
}
impl<'a> Handle<'a> {
    /// The other forms it can take.
    fn convert(self, how: usize) -> Handle<'a> {
        match (self, how) {
            (Handle::Local(v), 0) => Handle::Async(Box::pin(v.into_future())),
            (Handle::Local(v), _) => Handle::Raw(unsafe { std::mem::transmute(v) }),
            (Handle::Sendable(v), 0) => Handle::AsyncSend(Box::pin(v.into_future())),
            (Handle::Sendable(v), _) => Handle::Raw(unsafe { std::mem::transmute(v) }),
            (Handle::Async(f), _) => Handle::Local(Box::pin(f).into()),
            (Handle::AsyncSend(f), 0) => Handle::Sendable(f.wrap()),
            (Handle::AsyncSend(f), _) => Handle::Local(Box::pin(f).into()),
            (Handle::Raw(r), _) => Handle::Local(unsafe { std::mem::transmute(r) }),
        }
    }
}
trait Wrap<'a> {
    fn wrap(self) -> Sendable<'a>;
}
impl<'a> Wrap<'a> for Pin<Box<dyn 'a + Send + Future<Output = ()>>> {
    fn wrap(self) -> Sendable<'a> {
        Box::pin(self).into()
    }
}

const ORIGINS: usize = 6;
fn object(c: &mut Chooser, depth: usize, pends: usize) -> Res {
    reset(c);
    let (origin, left) = (c.top % ORIGINS, c.top / ORIGINS % (pends + 1));
    let script = || Script::new(0, left, 4);
    c.log(|| format!("origin {origin}, pending {left} times"));
    track::on(|| {
        if origin == 4 || origin == 5 {
            // A borrowed future: dropped by its owner.
            {
                let mut rust = Box::pin(Rust(script()));
                let mut foreign = Box::pin(Foreign(Script::new(1, left, 4)));
                let h: Handle<'_> = if origin == 4 { Handle::Local(rust.as_mut().into()) } else { Handle::Local(foreign.as_mut().into()) };
                drive(c, h, origin - 4, left, depth, 0)?;
                ensure!(obs(origin - 4).drops == 0, "dropping a handle that borrows a future dropped the future");
            }
            ensure!(obs(0).drops == 1 && obs(1).drops == 1, "borrowed futures: dropped {} and {} times", obs(0).drops, obs(1).drops);
            return Ok(());
        }
        let h = match origin {
            0 => Handle::Local(Box::pin(Rust(script())).into()),
            1 => Handle::Sendable(Box::pin(Rust(script())).into()),
            2 => Handle::Local(Box::pin(Foreign(script())).into()),
            _ => Handle::Sendable(Box::pin(Foreign(script())).into()),
        };
        drive(c, h, 0, left, depth, 1)
    })?;
    EVENTS.with(|e| e.borrow_mut().clear());
    track::end()
}
fn drive(c: &mut Chooser, h: Handle<'_>, id: usize, left: usize, depth: usize, drops: u32) -> Res {
    let counts = [Arc::new(Count(0.into())), Arc::new(Count(0.into()))];
    let wakers: [Waker; 2] = [counts[0].clone().into(), counts[1].clone().into()];
    let mut h = Some(h);
    let (mut polls, mut done) = (0, false);
    let mut last: Option<usize> = None; // Whose waker the future keeps.
    let mut expected = [0u32; 2];
    for _ in 0..depth {
        let armed = EVENTS.with(|e| e.borrow().iter().any(|x| x.0 == id));
        c.step();
        c.state(hash_of(&(c.top, polls, done, h.is_some(), last, armed, expected)));
        // 0: stop; 1, 2: poll with that waker; 3, 4: convert; 5: ring; 6: ring a copy of the waker.
        match c.choose(7) {
            0 => break,
            n @ (1 | 2) => {
                let Some(hd) = h.as_mut() else { break };
                if done {
                    break;
                }
                let k = n - 1;
                c.log(|| format!("poll with waker {k}"));
                let before = [count(&counts[0]), count(&counts[1])];
                let events = EVENTS.with(|e| e.borrow().len());
                let r = hd.poll(&mut Context::from_waker(&wakers[k]))?;
                polls += 1;
                ensure!(obs(id).polls == polls, "one poll of the handle polled the future {} times", obs(id).polls + 1 - polls);
                ensure!(!obs(id).bad, "the future was moved, or polled when it should not be");
                let ready = polls as usize > left;
                ensure!(r == ready, "poll {polls} of a future that is pending {left} times reported {}", if r { "completed" } else { "pending" });
                done = ready;
                let _ = events;
                let now = [count(&counts[0]), count(&counts[1])];
                ensure!(now[1 - k] == before[1 - k], "another task's waker was woken");
                if !ready {
                    let woken = now[k] - before[k];
                    let kept = EVENTS.with(|e| e.borrow().iter().any(|x| x.0 == id));
                    ensure!(woken <= 1, "one wake-up woke the task {woken} times");
                    if woken == 1 {
                        expected[k] += 1;
                    } else {
                        ensure!(kept, "a wake-up during a poll was lost");
                        last = Some(k);
                    }
                }
            },
            n @ (3 | 4) => {
                let Some(hd) = h.take() else { break };
                if n == 4 && matches!(hd, Handle::Raw(_) | Handle::Async(_)) {
                    h = Some(hd);
                    break;
                }
                c.log(|| format!("convert {}", n - 3));
                h = Some(hd.convert(n - 3));
                // (An adapter may drop the future as soon as it completes.)
                ensure!((obs(id).drops == 0 || done && drops == 1) && obs(id).polls == polls, "a conversion polled or dropped the future");
            },
            n @ (5 | 6) => {
                let Some(k) = last else { break };
                let a = EVENTS.with(|e| e.borrow().iter().find(|x| x.0 == id).map(|x| x.1.another()));
                let Some(a) = a else { break };
                c.log(|| "ring".into());
                if n == 6 {
                    let b = a.another();
                    drop(a);
                    b.ring();
                } else {
                    a.ring();
                }
                expected[k] += 1;
                ensure!([count(&counts[0]), count(&counts[1])] == expected, "ringing woke wakers {:?} times instead of {expected:?}", [count(&counts[0]), count(&counts[1])]);
            },
            _ => unreachable!(),
        }
    }
    // The waker may outlive the future.
    let orphan = EVENTS.with(|e| e.borrow().iter().find(|x| x.0 == id).map(|x| x.1.another()));
    if let Some(h) = h {
        h.release()
    }
    ensure!(obs(id).drops == drops, "the future was dropped {} times by its handle", obs(id).drops);
    ensure!(obs(id).polls == polls, "dropping the handle polled the future");
    ensure!(!obs(id).bad, "the future was moved after it was polled");
    if let (Some(a), Some(k)) = (orphan, last) {
        a.ring();
        expected[k] += 1;
        ensure!([count(&counts[0]), count(&counts[1])] == expected, "a waker that outlived the future woke {:?} instead of {expected:?}", [count(&counts[0]), count(&counts[1])]);
    }
    EVENTS.with(|e| e.borrow_mut().clear());
    let [a, b] = wakers;
    drop((a, b));
    ensure!(Arc::strong_count(&counts[0]) == 1 && Arc::strong_count(&counts[1]) == 1, "wakers leaked: {} and {} owners left", Arc::strong_count(&counts[0]) - 1, Arc::strong_count(&counts[1]) - 1);
    c.outcome(hash_of(&(polls, done, expected, last)));
    Ok(())
}

fn main() {
    let mut s = Session::new();
    let t = s.args.thorough;
    s.phase("object", ORIGINS * 4, |c| object(c, if t { 7 } else { 6 }, 3));
    model::phases(&mut s, t);
    tok::phases(&mut s, t);
    s.finish()
}
