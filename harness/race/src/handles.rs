//! Byte slices, closures and virtual objects.

use super::*;
use safer_ffi::{bytes::Bytes, closure::arc::*, prelude::*};
use std::{
    ffi::c_void,
    mem::{forget, transmute_copy, ManuallyDrop},
    ptr::read,
    sync::Arc,
    task::{Context, Wake, Waker},
};

pub fn all(run: &mut Run<'_>) {
    run.both::<Slice>();
    run.both::<Typed>();
    run.both::<Static>();
    run.both::<Boxed>();
    run.both::<Short>();
    #[cfg(feature = "stabby")]
    {
        // (stabby 36.1.1 counts references with relaxed operations only, so that the final drop of one of its `Arc`s
        // races, whoever uses it. That aside, the counting must be right.)
        sched::strengthen(true);
        run.both::<StabbySlice>();
        run.both::<StabbyTyped>();
        sched::strengthen(false);
    }
    run.both::<Closure>();
    run.both::<Closure2>();
    run.both::<Callback>();
    run.both::<Virtual>();
    run.both::<VirtualCopies>();
    run.both::<Glue>();
    run.both::<Executor>();
}

// ---------------------------------------------------------------- Bytes

/// A slice, and what part of `DATA` it must be.
pub struct Part {
    b: Bytes<'static>,
    at: usize,
    len: usize,
}
impl Part {
    fn new(b: Bytes<'static>) -> Part {
        let len = b.len();
        Part { b, at: 0, len }
    }
    fn look(&self) {
        check(self.b.len() == self.len, "the length of a slice changed");
        let s = self.b.as_slice();
        for i in [0, self.len / 2, self.len - 1] {
            check(unsafe { std::ptr::read_volatile(&s[i]) } == DATA[self.at + i], "the contents of a slice changed while it was alive");
        }
    }
    fn copy(&self) -> Part {
        Part { b: self.b.clone(), ..*self }
    }
    fn remake(&mut self, at: usize, len: usize, f: impl FnOnce(Bytes<'static>) -> Bytes<'static>) {
        self.look();
        let b = unsafe { read(&self.b) };
        unsafe { std::ptr::write(&mut self.b, f(b)) };
        (self.at, self.len) = (self.at + at, len);
        self.look();
    }
}

/// As a C program sees it.
#[repr(C)]
struct RawBytes {
    start: *const u8,
    len: usize,
    owner: *const (),
    capacity: usize,
    vtable: *const RawVt,
}
#[repr(C)]
struct RawVt {
    retain: Option<unsafe extern "C" fn(*const (), usize)>,
    release: Option<unsafe extern "C" fn(*const (), usize)>,
}

macro_rules! bytes_ops {($K:ty) => ({
    type Stack = Vec<Part>;
    fn top(s: &mut Stack) -> &mut Part { s.last_mut().unwrap() }
    vec![
        Op { name: "shorten", needs: 1, adds: 0, run: |s: &mut Stack, _| { let n = top(s).len; if n > 2 { top(s).remake(1, n - 2, |b| b.subsliced(1..n - 1)) } } },
        Op { name: "shorten to an inlined slice", needs: 1, adds: 0, run: |s: &mut Stack, _| { let n = top(s).len; if n > 8 { top(s).remake(n - 8, 8, |b| b.subsliced(n - 8..)) } } },
        Op { name: "split", needs: 1, adds: 1, run: |s: &mut Stack, _| {
            let p = s.pop().unwrap();
            p.look();
            held::<$K>(1);
            let n = p.len / 2;
            let Ok((l, r)) = p.b.split_at(n) else { panic!() };
            s.push(Part { b: l, at: p.at, len: n });
            s.push(Part { b: r, at: p.at + n, len: p.len - n });
        } },
        Op { name: "upgrade", needs: 1, adds: 0, run: |s: &mut Stack, _| { let n = top(s).len; top(s).remake(0, n, |b| b.upgrade()) } },
        Op { name: "clone without allocating", needs: 1, adds: 0, run: |s: &mut Stack, _| {
            held::<$K>(1);
            let p = top(s);
            match p.b.noalloc_clone() {
                Some(b) => { let q = Part { b, ..*p }; q.look(); held::<$K>(-1); drop(q) }
                None => held::<$K>(-1),
            }
        } },
        Op { name: "clone and release as C does", needs: 1, adds: 0, run: |s: &mut Stack, _| {
            let p = top(s);
            if p.len <= Bytes::MAX_INLINE_SIZE { return }
            let raw: RawBytes = unsafe { transmute_copy(&p.b) };
            let vt = unsafe { &*raw.vtable };
            if let (Some(retain), Some(release)) = (vt.retain, vt.release) {
                held::<$K>(1);
                unsafe { retain(raw.owner, raw.capacity) };
                check(unsafe { *raw.start.add(raw.len - 1) } == DATA[p.at + p.len - 1], "contents");
                held::<$K>(-1);
                unsafe { release(raw.owner, raw.capacity) };
            }
        } },
        Op { name: "downcast to Arc<[u8]> and back", needs: 1, adds: 0, run: |s: &mut Stack, _| { let n = top(s).len; top(s).remake(0, n, |b| match <Arc<[u8]>>::try_from(b) {
            Ok(mut a) => {
                check(a.len() == n, "the downcast slice has another length");
                if let Some(m) = Arc::get_mut(&mut a) {
                    // Nobody else may see this.
                    let old = std::mem::replace(&mut m[n / 2], 0x77);
                    unsafe { std::ptr::write_volatile(&mut m[n / 2], old) };
                    sched::outcome(1);
                }
                a.into()
            }
            Err(b) => { sched::outcome(2); b }
        }) } },
    ]
})}

macro_rules! bytes_kind {($K:ident, $name:literal, $counted:literal, $make:expr) => {
    struct $K;
    impl Kind for $K {
        type H = Part;
        const NAME: &'static str = $name;
        const COUNTED: bool = $counted;
        fn make() -> Part { Part::new($make) }
        fn copy(h: &Part) -> Part { h.copy() }
        fn look(h: &Part) { h.look() }
        fn more() -> Vec<Op<Part>> { bytes_ops!($K) }
    }
}}
impl AsRef<[u8]> for Res {
    fn as_ref(&self) -> &[u8] {
        &self.data
    }
}
bytes_kind!(Slice, "Bytes-from-Arc<[u8]>", false, Arc::<[u8]>::from(&DATA[..]).into());
// (Short parts of it are inlined, and then do not keep it alive.)
bytes_kind!(Typed, "Bytes-from-Arc<T>", false, Arc::new(Res::new(1)).into());
bytes_kind!(Static, "Bytes-from-static", false, Bytes::from_static(&DATA));
bytes_kind!(Boxed, "Bytes-from-Box", false, Box::<[u8]>::from(&DATA[..]).into());
bytes_kind!(Short, "Bytes-inlined", false, Bytes::from_slice(&DATA[..20]).upgrade());
#[cfg(feature = "stabby")]
bytes_kind!(StabbySlice, "Bytes-from-stabby-ArcSlice", false, stabby::sync::ArcSlice::<u8>::from(&DATA[..]).into());
#[cfg(feature = "stabby")]
bytes_kind!(StabbyTyped, "Bytes-from-stabby-Arc<T>", false, stabby::sync::Arc::new(Res::new(1)).into());

// ---------------------------------------------------------------- closures

#[repr(C)]
struct RawArc {
    env: *mut c_void,
    call: *const (),
    release: unsafe extern "C" fn(*mut c_void),
    retain: Option<unsafe extern "C" fn(*mut c_void)>,
}
unsafe fn raw<T>(h: &T) -> RawArc {
    assert_eq!(std::mem::size_of::<T>(), std::mem::size_of::<RawArc>());
    transmute_copy(h)
}
fn raw_clone<T>(h: &T, look: impl Fn(&T)) {
    hold(1, 1);
    let r = unsafe { raw(h) };
    unsafe { r.retain.unwrap()(r.env) };
    let other: ManuallyDrop<T> = unsafe { transmute_copy(h) };
    look(&other);
    hold(1, -1);
    unsafe { (r.release)(r.env) };
}

struct Closure;
impl Kind for Closure {
    type H = ArcDynFn0<u8>;
    const NAME: &'static str = "ArcDynFn0";
    fn make() -> Self::H {
        let r = Res::new(1);
        Arc::new(move || r.look()).into()
    }
    fn copy(h: &Self::H) -> Self::H {
        h.clone()
    }
    fn look(h: &Self::H) {
        check(h.call() == 1 + 18 + 48, "a closure returned something else");
    }
    fn more() -> Vec<Op<Self::H>> {
        vec![Op { name: "clone and release as C does", needs: 1, adds: 0, run: |s, _| raw_clone(s.last().unwrap(), Self::look) }]
    }
}
struct Closure2;
impl Kind for Closure2 {
    type H = ArcDynFn2<u8, u8, u8>;
    const NAME: &'static str = "ArcDynFn2";
    fn make() -> Self::H {
        let r = Res::new(1);
        ArcDynFn2::new(Arc::new(move |a: u8, b: u8| r.look() + a - b))
    }
    fn copy(h: &Self::H) -> Self::H {
        h.clone()
    }
    fn look(h: &Self::H) {
        check(h.call(5, 2) == 1 + 18 + 48 + 3, "a closure returned something else");
    }
    fn more() -> Vec<Op<Self::H>> {
        vec![Op { name: "clone and release as C does", needs: 1, adds: 0, run: |s, _| raw_clone(s.last().unwrap(), Self::look) }]
    }
}

// ---------------------------------------------------------------- wakers

safer_ffi::ffi_export_future_helpers!();
extern "C" {
    fn rust_future_task_context_get_waker(cx: *const Context<'_>) -> ArcDynFn0<()>;
    fn rust_future_task_context_wake(cx: *const Context<'_>);
}
impl Wake for Res {
    fn wake(self: Arc<Self>) {
        self.look();
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.look();
    }
}
/// The waker of a task, as foreign code gets it.
struct Callback;
impl Kind for Callback {
    type H = ArcDynFn0<()>;
    const NAME: &'static str = "waker";
    fn make() -> Self::H {
        let w = Waker::from(Arc::new(Res::new(1)));
        let cx = Context::from_waker(&w);
        let f = unsafe { rust_future_task_context_get_waker(&cx) };
        unsafe { rust_future_task_context_wake(&cx) };
        // (From here on, only the closures own the waker.)
        f
    }
    fn copy(h: &Self::H) -> Self::H {
        h.clone()
    }
    fn look(h: &Self::H) {
        h.call()
    }
    fn more() -> Vec<Op<Self::H>> {
        vec![
            Op { name: "clone and release as C does", needs: 1, adds: 0, run: |s, _| raw_clone(s.last().unwrap(), Self::look) },
            Op {
                name: "make a waker of the closure, and a closure of that",
                needs: 1,
                adds: 0,
                run: |s, _| {
                    struct W(ArcDynFn0<()>);
                    impl Wake for W {
                        fn wake(self: Arc<Self>) {
                            self.0.call()
                        }
                    }
                    let h = s.pop().unwrap();
                    let w = Waker::from(Arc::new(W(h)));
                    let cx = Context::from_waker(&w);
                    s.push(unsafe { rust_future_task_context_get_waker(&cx) });
                    unsafe { rust_future_task_context_wake(&cx) };
                },
            },
        ]
    }
}

// ---------------------------------------------------------------- virtual objects

#[derive_ReprC(dyn, Clone)]
pub trait Obj: Send + Sync {
    fn look(&self) -> u8;
}
impl Obj for Res {
    fn look(&self) -> u8 {
        Res::look(self)
    }
}
type Virt = VirtualPtr<dyn 'static + Send + Sync + Obj>;

#[repr(C)]
struct RawVirt {
    ptr: *mut c_void,
    release: unsafe extern "C" fn(*mut c_void),
    retain: unsafe extern "C" fn(*mut c_void) -> *mut c_void,
    look: unsafe extern "C" fn(*mut c_void) -> u8,
}
struct Virtual;
impl Kind for Virtual {
    type H = Virt;
    const NAME: &'static str = "VirtualPtr-from-Arc";
    fn make() -> Virt {
        Arc::new(Res::new(1)).into()
    }
    fn copy(h: &Virt) -> Virt {
        h.clone()
    }
    fn look(h: &Virt) {
        check(h.look() == 1 + 18 + 48, "a method returned something else");
    }
    fn more() -> Vec<Op<Virt>> {
        vec![Op { name: "clone and release as C does", needs: 1, adds: 0, run: |s, _| {
            let r: RawVirt = unsafe { transmute_copy(s.last().unwrap()) };
            hold(1, 1);
            let copy = RawVirt { ptr: unsafe { (r.retain)(r.ptr) }, ..r };
            check(unsafe { (copy.look)(copy.ptr) } == 1 + 18 + 48, "a method returned something else");
            hold(1, -1);
            unsafe { (copy.release)(copy.ptr) };
        } },
        Op { name: "move to another place and back", needs: 1, adds: 0, run: |s, _| { let h = Box::new(s.pop().unwrap()); let h2: Virt = unsafe { transmute_copy(&*h) }; forget(*h); s.push(h2) } }]
    }
}

static mut NEXT: u64 = 0;
fn next() -> u64 {
    sched::hidden(|| unsafe {
        // (Only one thread runs at a time.)
        NEXT += 1;
        NEXT
    })
}
/// Cloned with each handle.
struct Deep(Res);
impl Clone for Deep {
    fn clone(&self) -> Deep {
        self.0.look();
        Deep(Res::new(1000 + next()))
    }
}
impl Obj for Deep {
    fn look(&self) -> u8 {
        self.0.look()
    }
}
struct VirtualCopies;
impl Kind for VirtualCopies {
    type H = Virt;
    const NAME: &'static str = "VirtualPtr-from-Box";
    const COUNTED: bool = false;
    fn make() -> Virt {
        Box::new(Deep(Res::new(1))).into()
    }
    fn copy(h: &Virt) -> Virt {
        h.clone()
    }
    fn look(h: &Virt) {
        check(h.look() == 1 + 18 + 48, "a method returned something else");
    }
}

struct Glue;
impl Kind for Glue {
    type H = safer_ffi::dyn_traits::DynDrop;
    const NAME: &'static str = "DynDrop";
    fn make() -> Self::H {
        Self::H::new(Res::new(1))
    }
    fn copy(h: &Self::H) -> Self::H {
        h.clone()
    }
    fn look(_: &Self::H) {}
}

// ---------------------------------------------------------------- handles of executors

use safer_ffi::dyn_traits::futures::*;
pub type Exec = VirtualPtr<dyn 'static + Send + Sync + FfiFutureExecutor>;
/// Runs everything at once, on the calling thread.
pub struct Now(pub Res);
fn finish(f: impl std::future::Future<Output = ()>) {
    let w = futures::task::noop_waker();
    let mut cx = Context::from_waker(&w);
    futures::pin_mut!(f);
    check(f.as_mut().poll(&mut cx).is_ready(), "a future that does not wait is not complete");
}
impl FfiFutureExecutor for Now {
    fn dyn_spawn(&self, f: VirtualPtr<dyn 'static + Send + FfiFuture>) -> VirtualPtr<dyn 'static + Send + FfiFuture> {
        self.0.look();
        finish(f.into_future());
        Box::pin(async {}).into()
    }
    fn dyn_spawn_blocking(&self, f: repr_c::Box<dyn 'static + Send + FnMut()>) -> VirtualPtr<dyn 'static + Send + FfiFuture> {
        self.0.look();
        let mut f = f;
        f.call();
        Box::pin(async {}).into()
    }
    fn dyn_block_on(&self, f: VirtualPtr<dyn '_ + FfiFuture>) {
        self.0.look();
        finish(f.into_future())
    }
}
struct Executor;
impl Kind for Executor {
    type H = Exec;
    const NAME: &'static str = "executor";
    fn make() -> Exec {
        Arc::new(Now(Res::new(1))).into()
    }
    fn copy(h: &Exec) -> Exec {
        h.clone()
    }
    fn look(h: &Exec) {
        check(h.block_on(async { 3u8 }) == 3, "a future's result");
    }
    fn more() -> Vec<Op<Exec>> {
        vec![
            Op { name: "enter", needs: 1, adds: 0, run: |s, _| drop(s.last().unwrap().enter()) },
            Op {
                name: "spawn a task that owns a handle",
                needs: 1,
                adds: 0,
                run: |s, _| {
                    let h = s.last().unwrap();
                    let mine = copy::<Executor>(h);
                    let join = h.spawn(async move {
                        give_up::<Executor>(mine);
                        7u8
                    });
                    check(h.block_on(join) == 7, "a task's result");
                },
            },
        ]
    }
}
