//! C06: every operation sequence (up to a depth) on virtual objects of traits of many shapes, from every pointer type
//! they can be coerced from, through Rust and through the raw vtable, against a model of objects and owners.
#![allow(non_camel_case_types)]
use safer_ffi::boxed::Box_;
use safer_ffi::dyn_traits::DynDrop;
use safer_ffi::layout::{from_raw, from_raw_unchecked, into_raw, CLayoutOf, ReprC};
use safer_ffi::prelude::*;
use std::{
    cell::{Cell, RefCell},
    pin::Pin,
    rc::Rc,
    sync::{
        atomic::{AtomicU64, Ordering::Relaxed},
        Arc,
    },
};
use vc::{ensure, hash_of, track, Chooser, Res, Session};

#[global_allocator]
static A: track::TrackAlloc = track::TrackAlloc;

#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Copy, Hash)]
pub struct Pair {
    a: u8,
    b: u64,
}
#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Copy, Hash)]
pub struct Large {
    x: [u32; 9],
}

// ------------------------------------------------------------------ the objects

thread_local! {
    static NEXT: Cell<usize> = const { Cell::new(0) };
    static DROPS: RefCell<[u32; 64]> = const { RefCell::new([0; 64]) };
    /// The calls that reached an implementation: (method, object, digest of the arguments).
    static CALLS: RefCell<Vec<(u32, usize, u64)>> = const { RefCell::new(Vec::new()) };
    /// Whether the object at hand keeps the default body of `Mixed::m6`.
    static DEFAULT_M6: Cell<bool> = const { Cell::new(false) };
    /// Whether the objects at hand are zero-sized.
    static ZERO_SIZED: Cell<bool> = const { Cell::new(false) };
    static CORRUPT: Cell<bool> = const { Cell::new(false) };
}
fn fresh_id() -> usize {
    NEXT.with(|n| n.replace(n.get() + 1))
}
fn called(method: u32, id: usize, args: u64) {
    track::off(|| CALLS.with(|c| c.borrow_mut().push((method, id, args))))
}

const MAGIC: u64 = 0xFEED_FACE_CAFE_F00D;
/// Counts drops and clones; `state` changes through `&mut` and, atomically, through `&`.
struct Obj<const ALIGN_: usize> {
    magic: Box<u64>,
    id: usize,
    state: AtomicU64,
}
impl<const N: usize> Obj<N> {
    fn new() -> Self {
        let id = fresh_id();
        Obj { magic: Box::new(MAGIC), id, state: AtomicU64::new(id as u64 * 100) }
    }
    fn get(&self) -> u64 {
        if *self.magic != MAGIC {
            CORRUPT.with(|c| c.set(true))
        }
        self.state.load(Relaxed)
    }
}
impl<const N: usize> Drop for Obj<N> {
    fn drop(&mut self) {
        self.get();
        DROPS.with(|d| d.borrow_mut()[self.id] += 1)
    }
}
impl<const N: usize> Clone for Obj<N> {
    fn clone(&self) -> Self {
        let id = fresh_id();
        Obj { magic: Box::new(MAGIC), id, state: AtomicU64::new(self.get()) }
    }
}

/// What `method` answers on an object in `state`, and the object's next state.
fn answer(method: u32, state: u64, args: u64) -> u64 {
    hash_of(&(method, state, args)) >> 3
}
fn next_state(method: u32, state: u64, args: u64) -> u64 {
    if method % 2 == 1 {
        (state ^ (args << 7)).wrapping_mul(31).wrapping_add(method as u64) & 0xffff_ffff
    } else {
        state
    }
}
trait Thing {
    fn run(&self, method: u32, args: u64) -> u64;
    fn id(&self) -> usize;
}
impl<const N: usize> Thing for Obj<N> {
    fn run(&self, method: u32, args: u64) -> u64 {
        called(method, self.id, args);
        let s = self.get();
        self.state.store(next_state(method, s, args), Relaxed);
        answer(method, s, args)
    }
    fn id(&self) -> usize {
        self.id
    }
}
/// An over-aligned one, a zero-sized one (all of them are one object), and the plain one.
#[repr(align(64))]
#[derive(Clone)]
struct Over(Obj<1>);
impl Thing for Over {
    fn run(&self, method: u32, args: u64) -> u64 {
        if std::hint::black_box(self as *const _ as usize) % 64 != 0 {
            CORRUPT.with(|c| c.set(true))
        }
        self.0.run(method, args)
    }
    fn id(&self) -> usize {
        self.0.id
    }
}
type Plain = Obj<0>;

/// Zero-sized ones: what tells one from another is only how many there are. They answer as an object in state 0.
const NIL: usize = 63;
#[derive(Debug)]
struct Nil<A>(A);
/// An over-aligned nothing.
#[repr(align(64))]
#[derive(Clone)]
struct Align64;
impl Nil<()> {
    fn new() -> Self {
        fresh_id();
        Nil(())
    }
}
impl Nil<Align64> {
    fn new() -> Self {
        fresh_id();
        Nil(Align64)
    }
}
type Zst = Nil<()>;
type OverZst = Nil<Align64>;
impl<A> Drop for Nil<A> {
    fn drop(&mut self) {
        if std::hint::black_box(self as *const _ as usize) % std::mem::align_of::<A>() != 0 {
            CORRUPT.with(|c| c.set(true))
        }
        DROPS.with(|d| d.borrow_mut()[NIL] += 1)
    }
}
impl<A: Clone> Clone for Nil<A> {
    fn clone(&self) -> Self {
        fresh_id();
        Nil(self.0.clone())
    }
}
impl<A> Thing for Nil<A> {
    fn run(&self, method: u32, args: u64) -> u64 {
        if std::hint::black_box(self as *const _ as usize) % std::mem::align_of::<A>() != 0 {
            CORRUPT.with(|c| c.set(true))
        }
        called(method, NIL, args);
        answer(method, 0, args)
    }
    fn id(&self) -> usize {
        NIL
    }
}

fn dg(x: &(impl std::hash::Hash + ?Sized)) -> u64 {
    hash_of(x)
}

// ------------------------------------------------------------------ the traits

#[derive_ReprC(dyn)]
pub trait Mixed {
    fn m0(&self) -> u64;
    fn m1(&mut self, a: u8, b: i64, c: Pair) -> Pair;
    fn m2(&self, a: u32, b: u32) -> u32;
    fn m3(&mut self, b: Box_<u64>) -> Box_<u64>;
    fn m4(&self, l: Large, f: f64) -> Large;
    fn m5(&mut self, flag: bool);
    fn m6(&self, s: c_slice::Ref<'_, u8>, o: Option<Box_<u64>>) -> usize {
        // A default method: overridden by one of the implementors.
        7_000 + s.len() + o.map_or(0, |o| *o as usize)
    }
    fn m8(&self, a: u32, b: u32) -> u32;
}
macro_rules! mixed {($T:ty $(, $over:item)?) => (
    impl Mixed for $T {
        fn m0(&self) -> u64 { self.run(0, 0) }
        fn m1(&mut self, a: u8, b: i64, c: Pair) -> Pair { let r = self.run(1, dg(&(a, b, c))); Pair { a: r as u8, b: r } }
        fn m2(&self, a: u32, b: u32) -> u32 { self.run(2, dg(&(a, b))) as u32 }
        fn m3(&mut self, b: Box_<u64>) -> Box_<u64> { Box_::new(self.run(3, dg(&*b))) }
        fn m4(&self, l: Large, f: f64) -> Large { let r = self.run(4, dg(&(l, f.to_bits()))); Large { x: [r as u32; 9] } }
        fn m5(&mut self, flag: bool) { self.run(5, dg(&flag)); }
        $($over)?
        fn m8(&self, a: u32, b: u32) -> u32 { self.run(8, dg(&(a, b))) as u32 }
    }
)}
mixed!(Plain);
mixed!(Zst);
mixed!(OverZst);
mixed!(Over, fn m6(&self, s: c_slice::Ref<'_, u8>, o: Option<Box_<u64>>) -> usize {
    self.run(6, dg(&(s.as_slice(), o.map(|o| *o)))) as usize
});

#[derive_ReprC(dyn)]
pub trait Shared {
    fn m0(&self) -> u64;
    fn m1(&self, x: u64) -> u64;
    fn m2(&self, x: u64) -> u64;
    fn m3(&self, x: u16, y: u16) -> u16;
    fn m4(&self) -> Box_<u64>;
}
#[derive_ReprC(dyn, Clone)]
pub trait SharedClone {
    fn m0(&self) -> u64;
    fn m1(&self, x: u64) -> u64;
    fn m2(&self, x: u64) -> u64;
    fn m3(&self, x: u16, y: u16) -> u16;
    fn m4(&self) -> Box_<u64>;
}
macro_rules! shared {($($Tr:ident)*) => ($(
    impl<T: Thing> $Tr for T {
        fn m0(&self) -> u64 { self.run(0, 0) }
        fn m1(&self, x: u64) -> u64 { self.run(1, dg(&x)) }
        fn m2(&self, x: u64) -> u64 { self.run(2, dg(&x)) }
        fn m3(&self, x: u16, y: u16) -> u16 { self.run(3, dg(&(x, y))) as u16 }
        fn m4(&self) -> Box_<u64> { Box_::new(self.run(4, 0)) }
    }
)*)}
shared!(Shared SharedClone);

#[derive_ReprC(dyn, Clone)]
pub trait MutClone {
    fn m0(&self) -> u64;
    fn m1(&mut self, x: u64) -> u64;
    fn m2(&mut self, x: u64) -> u64;
}
impl<T: Thing> MutClone for T {
    fn m0(&self) -> u64 {
        self.run(0, 0)
    }
    fn m1(&mut self, x: u64) -> u64 {
        self.run(1, dg(&x))
    }
    fn m2(&mut self, x: u64) -> u64 {
        self.run(2, dg(&x))
    }
}
/// Only `&mut self` methods: these also come as `dyn Send + …`.
#[derive_ReprC(dyn)]
pub trait OnlyMut {
    fn m1(&mut self, x: u64) -> u64;
    fn m2(&mut self, x: u64) -> u64;
}
impl<T: Thing> OnlyMut for T {
    fn m1(&mut self, x: u64) -> u64 {
        self.run(1, dg(&x))
    }
    fn m2(&mut self, x: u64) -> u64 {
        self.run(2, dg(&x))
    }
}
#[derive_ReprC(dyn)]
pub trait Pinned {
    fn m1(self: Pin<&mut Self>, x: u64) -> u64;
    fn m2(self: Pin<&Self>, x: u64) -> u64;
    fn m0(&self) -> u64;
}
impl<T: Thing> Pinned for T {
    fn m1(self: Pin<&mut Self>, x: u64) -> u64 {
        self.run(1, dg(&x))
    }
    fn m2(self: Pin<&Self>, x: u64) -> u64 {
        self.run(2, dg(&x))
    }
    fn m0(&self) -> u64 {
        self.run(0, 0)
    }
}
#[derive_ReprC(dyn, Clone)]
pub trait PinnedClone {
    fn m1(self: Pin<&Self>, x: u64) -> u64;
    fn m0(&self) -> u64;
}
impl<T: Thing> PinnedClone for T {
    fn m1(self: Pin<&Self>, x: u64) -> u64 {
        self.run(1, dg(&x))
    }
    fn m0(&self) -> u64 {
        self.run(0, 0)
    }
}
/// Generics.
#[derive_ReprC(dyn)]
pub trait Generic<'a> {
    fn m1(&mut self, x: u32) -> u32;
    fn m0(&self, s: c_slice::Ref<'a, u8>) -> u64;
}
impl<'a, T: Thing> Generic<'a> for T {
    fn m1(&mut self, x: u32) -> u32 {
        self.run(1, dg(&x)) as u32
    }
    fn m0(&self, s: c_slice::Ref<'a, u8>) -> u64 {
        self.run(0, dg(s.as_slice()))
    }
}
/// Passing virtual objects to and from methods of virtual objects.
#[derive_ReprC(dyn)]
pub trait Factory {
    fn m0(&self, arg: VirtualPtr<dyn '_ + Shared>) -> u64;
    fn m2(&self) -> VirtualPtr<dyn 'static + SharedClone>;
}
impl<T: Thing> Factory for T {
    fn m0(&self, arg: VirtualPtr<dyn '_ + Shared>) -> u64 {
        let x = arg.m0();
        self.run(0, dg(&x))
    }
    fn m2(&self) -> VirtualPtr<dyn 'static + SharedClone> {
        self.run(2, 0);
        Box::new(Plain::new()).into()
    }
}

// ------------------------------------------------------------------ the explorer

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Own {
    /// Every handle has an object of its own.
    Unique,
    /// Handles share the object by reference count; the count kept by the harness is one of them.
    Counted,
    /// Handles do not own it.
    Borrowed,
}
#[derive(Clone, Copy)]
struct M {
    state: u64,
    owners: u32,
    own: Own,
}
struct World {
    objs: Vec<M>,
    /// The objects are zero-sized.
    nil: bool,
}
impl World {
    fn add(&mut self, own: Own, owners: u32) -> usize {
        let id = self.objs.len();
        self.objs.push(M { state: id as u64 * 100, owners, own });
        id
    }
    fn check(&self, what: &str) -> Res {
        ensure!(!CORRUPT.with(|c| c.get()), "{what}: a corrupt object was used");
        ensure!(NEXT.with(|n| n.get()) == self.objs.len(), "{what}: {} objects exist instead of {}", NEXT.with(|n| n.get()), self.objs.len());
        DROPS.with(|d| {
            let d = d.borrow();
            if self.nil {
                let dead = self.objs.iter().filter(|m| m.owners == 0).count();
                ensure!(d[NIL] == dead as u32, "{what}: {} destructors of zero-sized objects ran, instead of {dead}", d[NIL]);
                return Ok(());
            }
            for (i, m) in self.objs.iter().enumerate() {
                ensure!(d[i] == (m.owners == 0) as u32, "{what}: object #{i} with {} owners was dropped {} times", m.owners, d[i]);
            }
            Ok(())
        })
    }
    /// The effect and answer of a call.
    fn call(&mut self, obj: usize, method: u32, args: u64) -> Result<u64, String> {
        let seen = CALLS.with(|c| std::mem::take(&mut *c.borrow_mut()));
        ensure!(
            seen == [(method, if self.nil { NIL } else { obj }, args)],
            "a call of method {method} on object #{obj} with arguments {args:x} ran these instead: {seen:x?}"
        );
        if self.nil {
            return Ok(answer(method, 0, args));
        }
        let s = self.objs[obj].state;
        self.objs[obj].state = next_state(method, s, args);
        Ok(answer(method, s, args))
    }
}

/// How to make, call and destroy one kind of virtual object.
struct Kind<P: ReprC> {
    name: &'static str,
    own: Own,
    methods: usize,
    /// Calls method number k with arguments made from the seed; says (method number, digest of the arguments, check).
    call: fn(&mut P, usize, u64, &mut World, usize) -> Res,
    raw_call: fn(&CLayoutOf<P>, usize, u64, &mut World, usize) -> Res,
    release: fn(CLayoutOf<P>),
    clone: Option<fn(&P) -> P>,
    raw_clone: Option<fn(&CLayoutOf<P>) -> CLayoutOf<P>>,
}

fn reset() {
    NEXT.with(|n| n.set(0));
    DROPS.with(|d| *d.borrow_mut() = [0; 64]);
    CALLS.with(|c| c.borrow_mut().clear());
    CORRUPT.with(|c| c.set(false));
}

enum Slot<P: ReprC> {
    Rust(P),
    Opt(Option<P>),
    Raw(CLayoutOf<P>),
}

/// `first` made object #0; `keep` drops what the harness itself keeps of it (the borrowed object, or the count).
fn run<P: ReprC, K>(c: &mut Chooser, depth: usize, kind: &Kind<P>, first: P, keep: K, mutable_alias: bool) -> Res
where
    Option<P>: ReprC<CLayout = CLayoutOf<P>>,
{
    let _ = mutable_alias;
    c.log(|| format!("{:?} {}", kind.own, kind.name));
    let mut w = World { objs: vec![], nil: ZERO_SIZED.with(|z| z.get()) };
    w.add(kind.own, if kind.own == Own::Unique { 1 } else { 2 });
    let mut slots = vec![(Slot::Rust(first), 0usize)];
    w.check("after coercing")?;
    let mut keep = Some(keep);
    for step in 1..=depth {
        if slots.is_empty() {
            break;
        }
        c.step();
        let i = c.choose(slots.len());
        let obj = slots[i].1;
        match c.choose(6) {
            0 => {
                if kind.methods == 0 {
                    break;
                }
                let k = c.choose(kind.methods);
                c.log(|| format!("call method {k} of #{i}"));
                let seed = step as u64 * 37;
                match &mut slots[i].0 {
                    Slot::Rust(p) => (kind.call)(p, k, seed, &mut w, obj)?,
                    Slot::Opt(p) => (kind.call)(p.as_mut().unwrap(), k, seed, &mut w, obj)?,
                    Slot::Raw(l) => (kind.raw_call)(l, k, seed, &mut w, obj)?,
                }
            },
            1 => {
                let (Some(clone), Some(raw)) = (kind.clone, kind.raw_clone) else { break };
                if slots.len() >= 3 {
                    break;
                }
                c.log(|| format!("clone #{i}"));
                let new = track::on(|| match &slots[i].0 {
                    Slot::Rust(p) => Slot::Rust(clone(p)),
                    Slot::Opt(p) => Slot::Opt(Some(clone(p.as_ref().unwrap()))),
                    Slot::Raw(l) => Slot::Raw(raw(l)),
                });
                let o = match kind.own {
                    Own::Unique => {
                        let n = w.add(Own::Unique, 1);
                        w.objs[n].state = w.objs[obj].state;
                        n
                    },
                    Own::Counted => {
                        w.objs[obj].owners += 1;
                        obj
                    },
                    Own::Borrowed => obj,
                };
                slots.push((new, o));
            },
            2 => {
                c.log(|| format!("drop #{i}"));
                let (s, o) = slots.remove(i);
                drop_slot(s, kind);
                if w.objs[o].own != Own::Borrowed {
                    w.objs[o].owners -= 1;
                }
            },
            3 => {
                c.log(|| format!("convert #{i}"));
                let (s, o) = slots.remove(i);
                let s = match s {
                    Slot::Rust(p) => Slot::Raw(unsafe { into_raw(p) }),
                    Slot::Opt(p) => Slot::Raw(unsafe { into_raw(p) }),
                    Slot::Raw(l) => match unsafe { from_raw::<P>(l) } {
                        Some(p) => Slot::Rust(p),
                        None => return Err("a live virtual object was refused".into()),
                    },
                };
                slots.insert(i, (s, o));
            },
            4 => {
                c.log(|| format!("convert #{i} to or from Option"));
                let (s, o) = slots.remove(i);
                let s = match s {
                    Slot::Rust(p) => Slot::Opt(Some(p)),
                    Slot::Opt(p) => Slot::Rust(p.unwrap()),
                    Slot::Raw(l) => match unsafe { from_raw::<Option<P>>(l) } {
                        Some(Some(p)) => Slot::Opt(Some(p)),
                        _ => return Err("a live virtual object reads as None".into()),
                    },
                };
                slots.insert(i, (s, o));
            },
            _ => {
                if kind.own != Own::Counted || keep.is_none() {
                    break;
                }
                c.log(|| "drop the Rust owner".to_string());
                track::on(|| drop(keep.take()));
                w.objs[0].owners -= 1;
            },
        }
        w.check("after the step")?;
        c.state(hash_of(&(kind.name, slots.iter().map(|s| (matches!(s.0, Slot::Raw(_)), s.1)).collect::<Vec<_>>(), keep.is_some(), w.objs.len())));
    }
    for (s, o) in slots {
        drop_slot(s, kind);
        if w.objs[o].own != Own::Borrowed {
            w.objs[o].owners -= 1;
        }
    }
    w.check("after dropping every handle")?;
    if keep.is_some() && kind.own != Own::Unique {
        w.objs[0].owners -= if kind.own == Own::Borrowed { 2 } else { 1 };
    }
    track::on(|| drop(keep));
    w.check("in the end")?;
    c.outcome(hash_of(&(kind.name, w.objs.len(), w.objs.iter().map(|m| m.state).collect::<Vec<_>>())));
    track::end()
}
fn drop_slot<P: ReprC>(s: Slot<P>, kind: &Kind<P>) {
    track::on(|| match s {
        Slot::Rust(p) => drop(p),
        Slot::Opt(p) => drop(p),
        Slot::Raw(l) => (kind.release)(l),
    })
}

fn same(got: u64, want: u64, what: &str) -> Res {
    ensure!(got == want, "{what} answered {want:x}, the caller got {got:x}");
    Ok(())
}

/// The two ways of calling: `p.method(args)`, or the raw function pointer of the vtable with raw arguments.
macro_rules! kind {
    ($own:ident, $clone:tt, $P:ty, $call:ident, $raw:ident, $n:expr) => {
        Kind::<$P> {
            name: std::any::type_name::<$P>(),
            own: Own::$own,
            methods: $n,
            call: $call::<$P>,
            raw_call: $raw!($P),
            release: |l| unsafe {
                (l.vtable.release_vptr.unwrap())(l.ptr);
            },
            clone: kind!(@clone $clone $P),
            raw_clone: kind!(@raw_clone $clone $P),
        }
    };
    (@clone yes $P:ty) => { Some(|p: &$P| p.clone()) };
    (@clone no $P:ty) => { None };
    (@raw_clone yes $P:ty) => { Some(|l: &CLayoutOf<$P>| {
        let mut new = *l;
        new.ptr = unsafe { (l.vtable.retain_vptr.unwrap())(l.ptr) };
        new
    }) };
    (@raw_clone no $P:ty) => { None };
}

fn mixed_call<P: Mixed>(p: &mut P, k: usize, seed: u64, w: &mut World, obj: usize) -> Res {
    let (a, b) = (seed as u32, !seed as u32);
    match k {
        0 => same(p.m0(), w.call(obj, 0, 0)?, "m0"),
        1 => {
            let pair = Pair { a: seed as u8, b: !seed };
            let r = p.m1(a as u8, -(seed as i64), pair);
            let want = w.call(obj, 1, dg(&(a as u8, -(seed as i64), pair)))?;
            same(r.b, want, "m1")?;
            same(r.a as u64, want as u8 as u64, "m1")
        },
        2 => same(p.m2(a, b) as u64, w.call(obj, 2, dg(&(a, b)))? as u32 as u64, "m2"),
        3 => {
            let r = track::on(|| p.m3(Box_::new(seed)));
            same(*r, w.call(obj, 3, dg(&seed))?, "m3")
        },
        4 => {
            let l = Large { x: [seed as u32; 9] };
            let r = p.m4(l, 1.5);
            let want = w.call(obj, 4, dg(&(l, 1.5f64.to_bits())))? as u32;
            ensure!(r.x == [want; 9], "m4: wrong result");
            Ok(())
        },
        5 => {
            p.m5(seed % 2 == 0);
            w.call(obj, 5, dg(&(seed % 2 == 0))).map(drop)
        },
        6 => same(p.m8(a, b) as u64, w.call(obj, 8, dg(&(a, b)))? as u32 as u64, "m8"),
        _ => {
            let s = &b"hello"[..(seed % 5) as usize];
            let o = (seed % 2 == 0).then(|| seed);
            let r = track::on(|| p.m6(s.into(), o.map(Box_::new)));
            let want = if DEFAULT_M6.with(|d| d.get()) {
                // The default implementation.
                7_000 + s.len() as u64 + o.unwrap_or(0)
            } else {
                w.call(obj, 6, dg(&(s, o)))?
            };
            same(r as u64, want, "m6")
        },
    }
}
macro_rules! mixed_raw {($P:ty) => (|l, k, seed, w, obj| unsafe {
    let v = &l.vtable;
    let (a, b) = (seed as u32, !seed as u32);
    match k {
        0 => same(v.m0.unwrap()(l.ptr), w.call(obj, 0, 0)?, "m0"),
        1 => {
            let pair = Pair { a: seed as u8, b: !seed };
            let r: Pair = from_raw_unchecked(v.m1.unwrap()(l.ptr, a as u8, -(seed as i64), into_raw(pair)));
            same(r.b, w.call(obj, 1, dg(&(a as u8, -(seed as i64), pair)))?, "m1")
        },
        2 => same(v.m2.unwrap()(l.ptr, a, b) as u64, w.call(obj, 2, dg(&(a, b)))? as u32 as u64, "m2"),
        3 => {
            let r: Box_<u64> = track::on(|| from_raw_unchecked(v.m3.unwrap()(l.ptr, into_raw(Box_::new(seed)))));
            same(*r, w.call(obj, 3, dg(&seed))?, "m3")
        },
        4 => {
            let big = Large { x: [seed as u32; 9] };
            let r: Large = from_raw_unchecked(v.m4.unwrap()(l.ptr, into_raw(big), 1.5));
            let want = w.call(obj, 4, dg(&(big, 1.5f64.to_bits())))? as u32;
            ensure!(r.x == [want; 9], "m4: wrong result");
            Ok(())
        },
        5 => {
            v.m5.unwrap()(l.ptr, into_raw(seed % 2 == 0));
            w.call(obj, 5, dg(&(seed % 2 == 0))).map(drop)
        },
        6 => same(v.m8.unwrap()(l.ptr, a, b) as u64, w.call(obj, 8, dg(&(a, b)))? as u32 as u64, "m8"),
        _ => {
            let s = &b"hello"[..(seed % 5) as usize];
            let o = (seed % 2 == 0).then(|| seed);
            let s_: c_slice::Ref<'_, u8> = s.into();
            let r = track::on(|| v.m6.unwrap()(l.ptr, std::mem::transmute(into_raw(s_)), into_raw(o.map(Box_::new))));
            let want = if DEFAULT_M6.with(|d| d.get()) { 7_000 + s.len() as u64 + o.unwrap_or(0) } else { w.call(obj, 6, dg(&(s, o)))? };
            same(r as u64, want, "m6")
        },
    }
})}

macro_rules! shared_calls {($($f:ident $Tr:ident)*) => ($(
    fn $f<P: $Tr>(p: &mut P, k: usize, seed: u64, w: &mut World, obj: usize) -> Res {
        match k {
            0 => same($Tr::m0(p), w.call(obj, 0, 0)?, "m0"),
            1 => same($Tr::m1(p, seed), w.call(obj, 1, dg(&seed))?, "m1"),
            2 => same($Tr::m2(p, seed), w.call(obj, 2, dg(&seed))?, "m2"),
            3 => same($Tr::m3(p, seed as u16, !seed as u16) as u64, w.call(obj, 3, dg(&(seed as u16, !seed as u16)))? as u16 as u64, "m3"),
            _ => {
                let r = track::on(|| $Tr::m4(p));
                same(*r, w.call(obj, 4, 0)?, "m4")
            },
        }
    }
)*)}
shared_calls!(shared_call Shared  shared_clone_call SharedClone);
macro_rules! shared_raw {($P:ty) => (|l, k, seed, w, obj| unsafe {
    let v = &l.vtable;
    match k {
        0 => same(v.m0.unwrap()(l.ptr), w.call(obj, 0, 0)?, "m0"),
        1 => same(v.m1.unwrap()(l.ptr, seed), w.call(obj, 1, dg(&seed))?, "m1"),
        2 => same(v.m2.unwrap()(l.ptr, seed), w.call(obj, 2, dg(&seed))?, "m2"),
        3 => same(v.m3.unwrap()(l.ptr, seed as u16, !seed as u16) as u64, w.call(obj, 3, dg(&(seed as u16, !seed as u16)))? as u16 as u64, "m3"),
        _ => {
            let r: Box_<u64> = track::on(|| from_raw_unchecked(v.m4.unwrap()(l.ptr)));
            same(*r, w.call(obj, 4, 0)?, "m4")
        },
    }
})}

fn mut_clone_call<P: MutClone>(p: &mut P, k: usize, seed: u64, w: &mut World, obj: usize) -> Res {
    match k {
        0 => same(p.m0(), w.call(obj, 0, 0)?, "m0"),
        1 => same(p.m1(seed), w.call(obj, 1, dg(&seed))?, "m1"),
        _ => same(p.m2(seed), w.call(obj, 2, dg(&seed))?, "m2"),
    }
}
macro_rules! mut_clone_raw {($P:ty) => (|l, k, seed, w, obj| unsafe {
    let v = &l.vtable;
    match k {
        0 => same(v.m0.unwrap()(l.ptr), w.call(obj, 0, 0)?, "m0"),
        1 => same(v.m1.unwrap()(l.ptr, seed), w.call(obj, 1, dg(&seed))?, "m1"),
        _ => same(v.m2.unwrap()(l.ptr, seed), w.call(obj, 2, dg(&seed))?, "m2"),
    }
})}
fn only_mut_call<P: OnlyMut>(p: &mut P, k: usize, seed: u64, w: &mut World, obj: usize) -> Res {
    match k {
        0 => same(p.m1(seed), w.call(obj, 1, dg(&seed))?, "m1"),
        _ => same(p.m2(seed), w.call(obj, 2, dg(&seed))?, "m2"),
    }
}
macro_rules! only_mut_raw {($P:ty) => (|l, k, seed, w, obj| unsafe {
    let v = &l.vtable;
    match k {
        0 => same(v.m1.unwrap()(l.ptr, seed), w.call(obj, 1, dg(&seed))?, "m1"),
        _ => same(v.m2.unwrap()(l.ptr, seed), w.call(obj, 2, dg(&seed))?, "m2"),
    }
})}
fn pinned_call<P: Pinned + Unpin>(p: &mut P, k: usize, seed: u64, w: &mut World, obj: usize) -> Res {
    match k {
        0 => same(p.m0(), w.call(obj, 0, 0)?, "m0"),
        1 => same(Pin::new(p).m1(seed), w.call(obj, 1, dg(&seed))?, "m1"),
        _ => same(Pin::new(&*p).m2(seed), w.call(obj, 2, dg(&seed))?, "m2"),
    }
}
macro_rules! pinned_raw {($P:ty) => (mut_clone_raw!($P))}
fn pinned_clone_call<P: PinnedClone + Unpin>(p: &mut P, k: usize, seed: u64, w: &mut World, obj: usize) -> Res {
    match k {
        0 => same(p.m0(), w.call(obj, 0, 0)?, "m0"),
        _ => same(Pin::new(&*p).m1(seed), w.call(obj, 1, dg(&seed))?, "m1"),
    }
}
macro_rules! pinned_clone_raw {($P:ty) => (|l, k, seed, w, obj| unsafe {
    let v = &l.vtable;
    match k {
        0 => same(v.m0.unwrap()(l.ptr), w.call(obj, 0, 0)?, "m0"),
        _ => same(v.m1.unwrap()(l.ptr, seed), w.call(obj, 1, dg(&seed))?, "m1"),
    }
})}
fn generic_call<P: Generic<'static>>(p: &mut P, k: usize, seed: u64, w: &mut World, obj: usize) -> Res {
    match k {
        0 => {
            let s = &b"hello"[..(seed % 5) as usize];
            same(p.m0(s.into()), w.call(obj, 0, dg(s))?, "m0")
        },
        _ => same(p.m1(seed as u32) as u64, w.call(obj, 1, dg(&(seed as u32)))? as u32 as u64, "m1"),
    }
}
fn factory_call<P: Factory>(p: &mut P, k: usize, _: u64, w: &mut World, obj: usize) -> Res {
    match k {
        0 => {
            // A borrowed argument: called once, not dropped by the callee.
            let o = track::on(Plain::new);
            let id = w.add(Own::Borrowed, 2);
            let r = track::on(|| p.m0((&o).into()));
            let seen = CALLS.with(|c| c.borrow().clone());
            ensure!(seen.len() == 2 && seen[0] == (0, id, 0), "the argument was not called: {seen:x?}");
            CALLS.with(|c| c.borrow_mut().remove(0));
            let x = answer(0, w.objs[id].state, 0);
            same(r, w.call(obj, 0, dg(&x))?, "m0")?;
            w.check("after lending an object")?;
            track::on(|| drop(o));
            w.objs[id].owners = 0;
            Ok(())
        },
        1 => {
            // An argument that is given away.
            let o = track::on(|| Box::new(Plain::new()));
            let id = w.add(Own::Unique, 1);
            let r = track::on(|| p.m0(o.into()));
            CALLS.with(|c| c.borrow_mut().remove(0));
            let x = answer(0, w.objs[id].state, 0);
            w.objs[id].owners = 0;
            same(r, w.call(obj, 0, dg(&x))?, "m0")
        },
        _ => {
            let r = track::on(|| p.m2());
            w.call(obj, 2, 0)?;
            let id = w.add(Own::Unique, 1);
            w.check("after getting an object")?;
            same(SharedClone::m0(&r), w.call(id, 0, 0)?, "m0 of the result")?;
            let r2 = track::on(|| r.clone());
            let id2 = w.add(Own::Unique, 1);
            w.objs[id2].state = w.objs[id].state;
            track::on(|| drop(r));
            w.objs[id].owners = 0;
            w.check("after dropping the result")?;
            same(SharedClone::m1(&r2, 5), w.call(id2, 1, dg(&5u64))?, "m1 of its clone")?;
            track::on(|| drop(r2));
            w.objs[id2].owners = 0;
            Ok(())
        },
    }
}
macro_rules! generic_raw {($P:ty) => (|l, k, seed, w, obj| {
    let mut p = std::mem::ManuallyDrop::new(unsafe { from_raw_unchecked::<$P>(*l) });
    generic_call::<$P>(&mut *p, k, seed, w, obj)
})}
macro_rules! factory_raw {($P:ty) => (|l, k, seed, w, obj| {
    let mut p = std::mem::ManuallyDrop::new(unsafe { from_raw_unchecked::<$P>(*l) });
    factory_call::<$P>(&mut *p, k, seed, w, obj)
})}
type Body = fn(&mut Chooser, usize) -> Res;

macro_rules! table {
    ($($from:ident $T:ident $clone:tt ($($dynty:tt)*) $call:ident $raw:ident $n:literal;)*) => {
        &[$( |c: &mut Chooser, depth: usize| -> Res { table!(@ $from $T $clone ($($dynty)*) $call $raw $n, c, depth) } ),*] as &[Body]
    };
    (@ Box $T:ident $clone:tt ($($d:tt)*) $call:ident $raw:ident $n:literal, $c:ident, $depth:ident) => {{
        type P = VirtualPtr<dyn 'static + $($d)*>;
        reset();
        about::<$T>();
        let p: P = track::on(|| Box::new($T::new()).into());
        run($c, $depth, &kind!(Unique, $clone, P, $call, $raw, $n), p, (), false)
    }};
    (@ PinBox $T:ident $clone:tt ($($d:tt)*) $call:ident $raw:ident $n:literal, $c:ident, $depth:ident) => {{
        type P = VirtualPtr<dyn 'static + $($d)*>;
        reset();
        about::<$T>();
        let p: P = track::on(|| Box::pin($T::new()).into());
        run($c, $depth, &kind!(Unique, $clone, P, $call, $raw, $n), p, (), false)
    }};
    (@ Rc $T:ident $clone:tt ($($d:tt)*) $call:ident $raw:ident $n:literal, $c:ident, $depth:ident) => {{
        type P = VirtualPtr<dyn 'static + $($d)*>;
        reset();
        about::<$T>();
        let k = track::on(|| Rc::new($T::new()));
        let p: P = track::on(|| k.clone().into());
        run($c, $depth, &kind!(Counted, $clone, P, $call, $raw, $n), p, k, false)
    }};
    (@ Arc $T:ident $clone:tt ($($d:tt)*) $call:ident $raw:ident $n:literal, $c:ident, $depth:ident) => {{
        type P = VirtualPtr<dyn 'static + $($d)*>;
        reset();
        about::<$T>();
        let k = track::on(|| Arc::new($T::new()));
        let p: P = track::on(|| k.clone().into());
        run($c, $depth, &kind!(Counted, $clone, P, $call, $raw, $n), p, k, false)
    }};
    (@ Ref $T:ident $clone:tt ($($d:tt)*) $call:ident $raw:ident $n:literal, $c:ident, $depth:ident) => {{
        type P = VirtualPtr<dyn 'static + $($d)*>;
        reset();
        about::<$T>();
        let k = Leak(track::on(|| Box::into_raw(Box::new($T::new()))));
        let p: P = unsafe { &*k.0 }.into();
        run($c, $depth, &kind!(Borrowed, $clone, P, $call, $raw, $n), p, k, false)
    }};
    (@ Mut $T:ident $clone:tt ($($d:tt)*) $call:ident $raw:ident $n:literal, $c:ident, $depth:ident) => {{
        type P = VirtualPtr<dyn 'static + $($d)*>;
        reset();
        about::<$T>();
        let k = Leak(track::on(|| Box::into_raw(Box::new($T::new()))));
        let p: P = unsafe { &mut *k.0 }.into();
        run($c, $depth, &kind!(Borrowed, $clone, P, $call, $raw, $n), p, k, true)
    }};
    (@ PinRef $T:ident $clone:tt ($($d:tt)*) $call:ident $raw:ident $n:literal, $c:ident, $depth:ident) => {{
        type P = VirtualPtr<dyn 'static + $($d)*>;
        reset();
        about::<$T>();
        let k = Leak(track::on(|| Box::into_raw(Box::new($T::new()))));
        let p: P = Pin::new(unsafe { &*k.0 }).into();
        run($c, $depth, &kind!(Borrowed, $clone, P, $call, $raw, $n), p, k, false)
    }};
    (@ PinMut $T:ident $clone:tt ($($d:tt)*) $call:ident $raw:ident $n:literal, $c:ident, $depth:ident) => {{
        type P = VirtualPtr<dyn 'static + $($d)*>;
        reset();
        about::<$T>();
        let k = Leak(track::on(|| Box::into_raw(Box::new($T::new()))));
        let p: P = Pin::new(unsafe { &mut *k.0 }).into();
        run($c, $depth, &kind!(Borrowed, $clone, P, $call, $raw, $n), p, k, true)
    }};
}
fn about<T: 'static>() {
    use std::any::TypeId;
    DEFAULT_M6.with(|d| d.set(TypeId::of::<T>() != TypeId::of::<Over>()));
    ZERO_SIZED.with(|d| d.set(std::mem::size_of::<T>() == 0));
}
/// The owner of a borrowed object.
struct Leak<T>(*mut T);
impl<T> Drop for Leak<T> {
    fn drop(&mut self) {
        drop(unsafe { Box::from_raw(self.0) })
    }
}
impl Over {
    fn new() -> Self {
        Over(Obj::new())
    }
}

fn dyn_drop(c: &mut Chooser, depth: usize) -> Res {
    reset();
    let mut w = World { objs: vec![], nil: false };
    let o = track::on(Plain::new);
    w.add(Own::Counted, 1);
    let mut v = vec![track::on(|| DynDrop::new(o))];
    for _ in 0..depth {
        if v.is_empty() {
            break;
        }
        c.step();
        let i = c.choose(v.len());
        match c.choose(3) {
            0 => {
                c.log(|| format!("clone #{i}"));
                let n = track::on(|| v[i].clone());
                v.push(n);
                w.objs[0].owners += 1;
            },
            1 => {
                c.log(|| format!("drop #{i}"));
                let d = v.remove(i);
                track::on(|| drop(d));
                w.objs[0].owners -= 1;
            },
            _ => {
                c.log(|| format!("convert #{i}"));
                let d = v.remove(i);
                let l = unsafe { into_raw(d) };
                v.push(unsafe { from_raw(l) }.ok_or("refused")?);
            },
        }
        w.check("after the step")?;
    }
    track::on(|| v.drain(..).for_each(drop));
    w.objs[0].owners = 0;
    w.check("in the end")?;
    drop(v);
    track::end()
}

fn main() {
    let mut s = Session::new();
    let t: &[Body] = table! {
        Box Plain no (Mixed) mixed_call mixed_raw 8;
        Box Over no (Mixed) mixed_call mixed_raw 8;
        Box Plain no (Send + Sync + Mixed) mixed_call mixed_raw 8;
        Mut Plain no (Mixed) mixed_call mixed_raw 8;
        Mut Over no (Send + Sync + Mixed) mixed_call mixed_raw 8;

        Box Plain no (Shared) shared_call shared_raw 5;
        Box Over no (Send + Sync + Shared) shared_call shared_raw 5;
        Ref Plain no (Shared) shared_call shared_raw 5;
        Ref Plain no (Send + Sync + Shared) shared_call shared_raw 5;
        Mut Plain no (Shared) shared_call shared_raw 5;
        Mut Plain no (Send + Sync + Shared) shared_call shared_raw 5;
        Rc Plain no (Shared) shared_call shared_raw 5;
        Rc Over no (Shared) shared_call shared_raw 5;
        Arc Plain no (Send + Sync + Shared) shared_call shared_raw 5;
        Arc Over no (Send + Sync + Shared) shared_call shared_raw 5;

        Box Plain yes (SharedClone) shared_clone_call shared_raw 5;
        Box Over yes (Send + Sync + SharedClone) shared_clone_call shared_raw 5;
        Ref Plain yes (SharedClone) shared_clone_call shared_raw 5;
        Ref Over yes (Send + Sync + SharedClone) shared_clone_call shared_raw 5;
        Rc Plain yes (SharedClone) shared_clone_call shared_raw 5;
        Rc Over yes (SharedClone) shared_clone_call shared_raw 5;
        Arc Plain yes (Send + Sync + SharedClone) shared_clone_call shared_raw 5;
        Arc Over yes (Send + Sync + SharedClone) shared_clone_call shared_raw 5;

        Box Plain yes (MutClone) mut_clone_call mut_clone_raw 3;
        Box Over yes (Send + Sync + MutClone) mut_clone_call mut_clone_raw 3;

        Box Plain no (OnlyMut) only_mut_call only_mut_raw 2;
        Box Plain no (Send + OnlyMut) only_mut_call only_mut_raw 2;
        Box Over no (Send + Sync + OnlyMut) only_mut_call only_mut_raw 2;
        Mut Plain no (OnlyMut) only_mut_call only_mut_raw 2;
        Mut Plain no (Send + OnlyMut) only_mut_call only_mut_raw 2;

        PinBox Plain no (Pinned) pinned_call pinned_raw 3;
        PinBox Over no (Send + Sync + Pinned) pinned_call pinned_raw 3;
        PinMut Plain no (Pinned) pinned_call pinned_raw 3;
        PinMut Plain no (Send + Sync + Pinned) pinned_call pinned_raw 3;
        PinBox Plain yes (PinnedClone) pinned_clone_call pinned_clone_raw 2;
        PinRef Plain yes (PinnedClone) pinned_clone_call pinned_clone_raw 2;
        PinRef Over yes (Send + Sync + PinnedClone) pinned_clone_call pinned_clone_raw 2;

        Box Plain no (Generic<'static>) generic_call generic_raw 2;
        Mut Over no (Send + Sync + Generic<'static>) generic_call generic_raw 2;

        Box Zst no (Mixed) mixed_call mixed_raw 8;
        Box OverZst no (Send + Sync + Mixed) mixed_call mixed_raw 8;
        Mut OverZst no (Mixed) mixed_call mixed_raw 8;
        Ref Zst no (Shared) shared_call shared_raw 5;
        Rc Zst no (Shared) shared_call shared_raw 5;
        Arc OverZst no (Send + Sync + Shared) shared_call shared_raw 5;
        Box Zst yes (SharedClone) shared_clone_call shared_raw 5;
        Box OverZst yes (Send + Sync + SharedClone) shared_clone_call shared_raw 5;
        Ref OverZst yes (SharedClone) shared_clone_call shared_raw 5;
        Rc OverZst yes (SharedClone) shared_clone_call shared_raw 5;
        Arc Zst yes (Send + Sync + SharedClone) shared_clone_call shared_raw 5;
        Box Zst yes (Send + Sync + MutClone) mut_clone_call mut_clone_raw 3;
        Box OverZst no (Send + OnlyMut) only_mut_call only_mut_raw 2;
        PinBox Zst no (Pinned) pinned_call pinned_raw 3;
        PinBox OverZst yes (PinnedClone) pinned_clone_call pinned_clone_raw 2;
        PinMut Zst no (Send + Sync + Pinned) pinned_call pinned_raw 3;
        PinRef Zst yes (PinnedClone) pinned_clone_call pinned_clone_raw 2;

        Box Plain no (Factory) factory_call factory_raw 3;
        Ref Plain no (Factory) factory_call factory_raw 3;
    };
    let d = if s.args.thorough { 6 } else { 5 };
    s.phase("objects", t.len(), |c| t[c.top](c, d));
    s.phase("dyn-drop", 1, |c| dyn_drop(c, d + 2));
    s.finish()
}
