//! C05: every operation sequence (up to a depth) on closures of every arity, through the Rust methods and through the
//! raw C struct, against a counting model.
use safer_ffi::boxed::Box_;
use safer_ffi::closure::{arc::*, borrowed::*, boxed::*};
use safer_ffi::layout::{from_raw, from_raw_unchecked, into_raw, CLayoutOf, ReprC};
use safer_ffi::prelude::*;
use std::{
    cell::{Cell, RefCell},
    mem::ManuallyDrop,
    sync::Arc,
};
use vc::{catches, ensure, hash_of, track, Chooser, Res, Session};

#[global_allocator]
static A: track::TrackAlloc = track::TrackAlloc;

// ------------------------------------------------------------------ argument and result types

pub trait Val: ReprC + Sized + 'static {
    fn make(seed: u64) -> Self;
    fn digest(&self) -> u64;
    unsafe fn from_c(l: CLayoutOf<Self>) -> Self {
        from_raw_unchecked(l)
    }
}
macro_rules! int_vals {($($T:ty),*) => ($(
    impl Val for $T {
        fn make(seed: u64) -> Self { seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) as $T }
        fn digest(&self) -> u64 { *self as u64 }
    }
)*)}
int_vals!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize);
impl Val for f32 {
    fn make(seed: u64) -> Self {
        (seed % 1000) as f32 * 0.5
    }
    fn digest(&self) -> u64 {
        self.to_bits() as u64
    }
}
impl Val for f64 {
    fn make(seed: u64) -> Self {
        (seed % 100_000) as f64 * 0.25
    }
    fn digest(&self) -> u64 {
        self.to_bits()
    }
}
impl Val for bool {
    fn make(seed: u64) -> Self {
        seed % 3 == 0
    }
    fn digest(&self) -> u64 {
        *self as u64
    }
}
impl Val for () {
    fn make(_: u64) -> Self {}
    fn digest(&self) -> u64 {
        0
    }
    // (Asking whether nothing is valid is a documented logic error.)
    unsafe fn from_c(_: CVoid) {}
}
#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Copy)]
struct Pair {
    a: u8,
    b: u64,
}
impl Val for Pair {
    fn make(seed: u64) -> Self {
        Pair { a: seed as u8, b: !seed }
    }
    fn digest(&self) -> u64 {
        hash_of(&(self.a, self.b))
    }
}
#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Copy)]
struct Big {
    x: [u32; 7],
    y: f64,
}
impl Val for Big {
    fn make(seed: u64) -> Self {
        let mut x = [0; 7];
        for (i, x) in x.iter_mut().enumerate() {
            *x = (seed as u32).wrapping_mul(31).wrapping_add(i as u32)
        }
        Big { x, y: f64::make(seed) }
    }
    fn digest(&self) -> u64 {
        hash_of(&(self.x, self.y.to_bits()))
    }
}
#[derive_ReprC]
#[repr(u8)]
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum En {
    X = 3,
    Y = 7,
    Z = 200,
}
impl Val for En {
    fn make(seed: u64) -> Self {
        [En::X, En::Y, En::Z][(seed % 3) as usize]
    }
    fn digest(&self) -> u64 {
        *self as u64
    }
}
impl Val for Box_<u64> {
    fn make(seed: u64) -> Self {
        Box_::new(seed ^ 0x55)
    }
    fn digest(&self) -> u64 {
        **self
    }
}
impl Val for repr_c::Vec<u16> {
    fn make(seed: u64) -> Self {
        (0..seed % 4).map(|i| (seed + i) as u16).collect::<Vec<_>>().into()
    }
    fn digest(&self) -> u64 {
        hash_of(&self[..])
    }
}
impl Val for Option<Box_<u64>> {
    fn make(seed: u64) -> Self {
        (seed % 2 == 0).then(|| Box_::make(seed))
    }
    fn digest(&self) -> u64 {
        self.as_ref().map_or(1, |b| b.digest())
    }
}
impl Val for c_slice::Ref<'static, u8> {
    fn make(seed: u64) -> Self {
        let n = (seed % 6) as usize;
        b"abcdef"[n / 2..n].into()
    }
    fn digest(&self) -> u64 {
        hash_of(&(self.as_ptr() as usize, self.len()))
    }
}

// ------------------------------------------------------------------ environments

thread_local! {
    static DROPS: Cell<u32> = const { Cell::new(0) };
    static BAD_DROP: Cell<bool> = const { Cell::new(false) };
    static ARGS: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
    static CALLS: Cell<u32> = const { Cell::new(0) };
    static FOREIGN: Cell<(usize, u32, u32, bool)> = const { Cell::new((0, 0, 0, false)) };
}
const MAGIC: u64 = 0x1122_3344_5566_7788;

pub trait Env: Send + Sync + 'static {
    fn new() -> Self;
    fn tag(&self) -> u64;
    fn bump(&mut self) -> u64;
}
macro_rules! envs {($($Name:ident { $T:ty } $(#[$m:meta])? = $new:expr, |$s:ident| $tag:expr, |$t:ident| $bump:expr;)*) => ($(
    $(#[$m])? struct $Name($T);
    impl Env for $Name {
        fn new() -> Self { $Name($new) }
        fn tag(&self) -> u64 { let $s = self; $tag }
        fn bump(&mut self) -> u64 { let $t = self; $bump }
    }
    impl Drop for $Name {
        fn drop(&mut self) {
            DROPS.with(|d| d.set(d.get() + 1));
            BAD_DROP.with(|b| b.set(b.get() | (self.tag() != MAGIC)));
        }
    }
)*)}
envs! {
    Word { (u64, u64) } = (MAGIC, 0), |s| s.0.0, |t| { t.0.1 += 1; t.0.1 };
    Heap { Box<(u64, u64)> } = Box::new((MAGIC, 0)), |s| s.0.0, |t| { t.0.1 += 1; t.0.1 };
    Zst { () } = (), |_s| MAGIC, |_t| 7;
    Over { (u64, u64) } #[repr(align(64))] = (MAGIC, 0), |s| if std::hint::black_box(s as *const _ as usize) % 64 == 0 { s.0.0 } else { 0 }, |t| { t.0.1 += 1; t.0.1 };
    Large { [u64; 40] } = [MAGIC; 40], |s| if s.0.iter().skip(1).all(|&x| x == MAGIC) { MAGIC } else { 0 }, |t| { t.0[0] += 1; t.0[0] };
}

fn note(args: &[u64]) {
    track::off(|| {
        CALLS.with(|c| c.set(c.get() + 1));
        ARGS.with(|a| {
            let mut a = a.borrow_mut();
            a.clear();
            a.extend_from_slice(args)
        })
    })
}
fn reset() {
    DROPS.with(|d| d.set(0));
    BAD_DROP.with(|d| d.set(false));
    CALLS.with(|d| d.set(0));
    FOREIGN.with(|f| f.set((0, 0, 0, false)));
}
/// What a closure answers: depends on every argument and on its environment.
fn answer(args: &[u64], env: u64) -> u64 {
    hash_of(&(args, env)) >> 7
}
fn drops() -> u32 {
    DROPS.with(|d| d.get())
}
fn check_call(args: &[u64], expected: u64, got: u64) -> Res {
    let n = CALLS.with(|c| c.replace(0));
    ensure!(n == 1, "one call ran the closure {n} times");
    let seen = ARGS.with(|a| a.borrow().clone());
    ensure!(seen == args, "the closure saw {seen:x?}, was given {args:x?}");
    ensure!(got == expected, "the closure returned {expected:x}, the caller got {got:x}");
    Ok(())
}
fn check_drops(expected: u32, what: &str) -> Res {
    ensure!(drops() == expected, "{what}: environment dropped {} times instead of {expected}", drops());
    ensure!(!BAD_DROP.with(|b| b.get()), "{what}: a corrupt environment was dropped");
    Ok(())
}
unsafe extern "C" fn f_release(env: *mut CVoid) -> CVoid {
    FOREIGN.with(|f| {
        let mut x = f.get();
        x.3 |= env as usize != x.0;
        x.2 += 1;
        f.set(x)
    });
    into_raw(())
}
unsafe extern "C" fn f_retain(env: *mut CVoid) -> CVoid {
    FOREIGN.with(|f| {
        let mut x = f.get();
        x.3 |= env as usize != x.0;
        x.1 += 1;
        f.set(x)
    });
    into_raw(())
}
type CVoid = CLayoutOf<()>;
static SPOT: [u64; 4] = [0; 4];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum From_ {
    RustNew,
    RustFrom,
    /// Built by C, with retain.
    C,
    /// Built by C, without retain.
    CNoRetain,
}


struct Model {
    /// Owners: the FFI handles, plus the Rust Arc that may have been kept.
    owners: u32,
    retained: u32,
    released: u32,
}

macro_rules! arity {
    ($m:ident, $Arc:ident $ArcL:ident, $Box:ident $BoxL:ident, $Ref:ident $RefL:ident, $n:literal, $($A:ident $a:ident $i:literal),*) => {
        mod $m {
            #![allow(unused_mut, unused_variables)]
            use super::*;
            pub fn make_fn<E: Env, R: Val, $($A: Val),*>() -> impl Fn($($A),*) -> R + Send + Sync + 'static {
                let env = E::new();
                move |$($a: $A),*| -> R {
                    let env: &E = &env;
                    let args: &[u64] = &[$($a.digest()),*];
                    note(args);
                    R::make(answer(args, env.tag()))
                }
            }
            pub fn make_fn_mut<E: Env, R: Val, $($A: Val),*>() -> impl FnMut($($A),*) -> R + Send + 'static {
                let mut env = E::new();
                move |$($a: $A),*| -> R {
                    let env: &mut E = &mut env;
                    let args: &[u64] = &[$($a.digest()),*];
                    note(args);
                    let n = env.bump();
                    R::make(answer(args, n))
                }
            }
            unsafe extern "C" fn f_call<R: Val, $($A: Val),*>(env: *mut CVoid, $($a: CLayoutOf<$A>),*) -> CLayoutOf<R> {
                FOREIGN.with(|f| { let mut x = f.get(); x.3 |= env as usize != x.0; f.set(x) });
                $(let $a: $A = from_raw_unchecked($a);)*
                let args: &[u64] = &[$($a.digest()),*];
                note(args);
                into_raw(R::make(answer(args, MAGIC)))
            }

            enum Slot<R: Val, $($A: Val),*> {
                Rust($Arc<R, $($A),*>),
                Raw(CLayoutOf<$Arc<R, $($A),*>>),
            }
            pub fn arc<E: Env, R: Val, $($A: Val),*>(c: &mut Chooser, depth: usize) -> Res {
                reset();
                let origin = [From_::RustNew, From_::RustFrom, From_::C, From_::CNoRetain][c.choose(4)];
                let foreign = matches!(origin, From_::C | From_::CNoRetain);
                c.log(|| format!("{} from {origin:?}, env {}", stringify!($Arc), std::any::type_name::<E>()));
                let mut m = Model { owners: 1, retained: 0, released: 0 };
                let mut keep = None;
                let first: $Arc<R, $($A),*> = if foreign {
                    FOREIGN.with(|f| f.set((&SPOT as *const _ as usize, 0, 0, false)));
                    let l = $ArcL {
                        env_ptr: &SPOT as *const _ as *mut CVoid,
                        call: Some(f_call::<R, $($A),*>),
                        release: Some(f_release),
                        retain: if origin == From_::C { Some(f_retain) } else { None },
                    };
                    // Illegal variants of it are no closures.
                    if depth == 0 {
                    ensure!(unsafe { from_raw::<$Arc<R, $($A),*>>($ArcL { env_ptr: std::ptr::null_mut(), ..l }) }.map(ManuallyDrop::new).is_none(), "a null environment was accepted");
                    ensure!(unsafe { from_raw::<$Arc<R, $($A),*>>($ArcL { call: None, ..l }) }.map(ManuallyDrop::new).is_none(), "a null `call` was accepted");
                    ensure!(unsafe { from_raw::<$Arc<R, $($A),*>>($ArcL { release: None, ..l }) }.map(ManuallyDrop::new).is_none(), "a null `release` was accepted");
                    }
                    match unsafe { from_raw::<$Arc<R, $($A),*>>(l) } {
                        Some(it) => it,
                        None => return Err("a well-formed closure from C was refused".into()),
                    }
                } else {
                    track::on(|| {
                        let a = Arc::new(make_fn::<E, R, $($A),*>());
                        keep = Some(a.clone());
                        m.owners += 1;
                        if origin == From_::RustNew { $Arc::new(a) } else { a.into() }
                    })
                };
                let mut slots: Vec<Slot<R, $($A),*>> = vec![Slot::Rust(first)];
                let mut step = 0usize;
                while step < depth && !slots.is_empty() {
                    step += 1;
                    c.step();
                    let i = c.choose(slots.len());
                    let op = c.choose(if keep.is_some() { 5 } else { 4 });
                    match op {
                        // Call it.
                        0 => {
                            c.log(|| format!("call #{i}"));
                            let _seed = step as u64 * 1000;
                            let (args, got) = track::on(|| {
                                $(let $a = $A::make(_seed + $i);)*
                                let args: Vec<u64> = track::off(|| vec![$($a.digest()),*]);
                                let r: R = match &slots[i] {
                                    Slot::Rust(h) => h.call($($a),*),
                                    Slot::Raw(l) => unsafe {
                                        R::from_c((l.call.unwrap())(l.env_ptr, $(into_raw($a)),*))
                                    },
                                };
                                (args, r.digest())
                            });
                            let want = track::off(|| R::make(answer(&args, MAGIC)).digest());
                            check_call(&args, want, got)?;
                        },
                        // Another owner.
                        1 => {
                            c.log(|| format!("clone #{i}"));
                            if slots.len() >= 3 { break; }
                            let new = match &slots[i] {
                                Slot::Rust(h) => {
                                    let r = track::on(|| catches(|| h.clone()));
                                    ensure!(r.is_err() == (origin == From_::CNoRetain), "clone panicked: {}, retain is null: {}", r.is_err(), origin == From_::CNoRetain);
                                    match r { Ok(h) => Some(Slot::Rust(h)), Err(()) => None }
                                },
                                Slot::Raw(l) => match l.retain {
                                    Some(retain) => {
                                        track::on(|| unsafe { retain(l.env_ptr); });
                                        Some(Slot::Raw(*l))
                                    },
                                    None => {
                                        ensure!(origin == From_::CNoRetain, "`retain` became null");
                                        None
                                    },
                                },
                            };
                            if let Some(n) = new {
                                slots.push(n);
                                m.owners += 1;
                                m.retained += 1;
                            }
                        },
                        // One owner less.
                        2 => {
                            c.log(|| format!("drop #{i}"));
                            match slots.remove(i) {
                                Slot::Rust(h) => track::on(|| drop(h)),
                                Slot::Raw(l) => track::on(|| unsafe { (l.release.unwrap())(l.env_ptr); }),
                            }
                            m.owners -= 1;
                            m.released += 1;
                        },
                        // Across the FFI.
                        3 => {
                            c.log(|| format!("convert #{i}"));
                            let s = match slots.remove(i) {
                                Slot::Rust(h) => Slot::Raw(unsafe { into_raw(h) }),
                                Slot::Raw(l) => match unsafe { from_raw::<$Arc<R, $($A),*>>(l) } {
                                    Some(h) => Slot::Rust(h),
                                    None => return Err("a live closure was refused".into()),
                                },
                            };
                            if let (Slot::Raw(l), true) = (&s, foreign) {
                                ensure!(l.env_ptr as usize == &SPOT as *const _ as usize && l.release.map(|f| f as usize) == Some(f_release as usize)
                                    && l.retain.is_some() == (origin == From_::C), "the fields changed on the way through Rust");
                            }
                            slots.insert(i, s);
                        },
                        _ => {
                            c.log(|| "drop the Rust Arc".to_string());
                            let k = keep.take();
                            track::on(|| drop(k));
                            m.owners -= 1;
                        },
                    }
                    c.state(hash_of(&(stringify!($Arc), origin as u8, m.owners, keep.is_some(), slots.len(), slots.iter().map(|s| matches!(s, Slot::Raw(_))).collect::<Vec<_>>())));
                    if foreign {
                        let (_, r, d, bad) = FOREIGN.with(|f| f.get());
                        ensure!(!bad, "a callback got a wrong environment pointer");
                        ensure!((r, d) == (m.retained, m.released), "retain/release called {r}/{d} times, expected {}/{}", m.retained, m.released);
                    } else {
                        check_drops((m.owners == 0) as u32, "after the step")?;
                        if let Some(k) = &keep {
                            ensure!(Arc::strong_count(k) == m.owners as usize, "reference count {} with {} owners", Arc::strong_count(k), m.owners);
                        }
                    }
                }
                for s in slots {
                    match s {
                        Slot::Rust(h) => track::on(|| drop(h)),
                        Slot::Raw(l) => track::on(|| unsafe { (l.release.unwrap())(l.env_ptr); }),
                    }
                    m.released += 1;
                }
                track::on(|| drop(keep));
                if foreign {
                    let (_, r, d, _) = FOREIGN.with(|f| f.get());
                    ensure!((r, d) == (m.retained, m.released), "in the end, retain/release called {r}/{d} times, expected {}/{}", m.retained, m.released);
                } else {
                    check_drops(1, "in the end")?;
                }
                c.outcome(hash_of(&(m.retained, m.released, step)));
                track::end()
            }

            enum BSlot<R: Val, $($A: Val),*> {
                Rust($Box<R, $($A),*>),
                Raw(CLayoutOf<$Box<R, $($A),*>>),
                Opt(Option<$Box<R, $($A),*>>),
            }
            pub fn boxed<E: Env, R: Val, $($A: Val),*>(c: &mut Chooser, depth: usize) -> Res {
                type B<R, $($A),*> = $Box<R, $($A),*>;
                reset();
                let origin = c.choose(3);
                let foreign = origin == 2;
                c.log(|| format!("{} origin {origin}, env {}", stringify!($Box), std::any::type_name::<E>()));
                // What the environment answers on its k-th call.
                let mut shadow = (!foreign).then(|| E::new());
                let mut b: BSlot<R, $($A),*> = BSlot::Rust(if foreign {
                    FOREIGN.with(|f| f.set((&SPOT as *const _ as usize, 0, 0, false)));
                    let l = $BoxL {
                        env_ptr: &SPOT as *const _ as *mut CVoid,
                        call: Some(f_call::<R, $($A),*>),
                        free: Some(f_release),
                    };
                    if depth == 0 {
                    ensure!(unsafe { from_raw::<B<R, $($A),*>>($BoxL { env_ptr: std::ptr::null_mut(), ..l }) }.map(ManuallyDrop::new).is_none(), "a null environment was accepted");
                    ensure!(unsafe { from_raw::<Option<B<R, $($A),*>>>($BoxL { env_ptr: std::ptr::null_mut(), ..l }) }.map_or(true, |o| ManuallyDrop::new(o).is_some()) == false, "a null environment is not None");
                    }
                    match unsafe { from_raw::<B<R, $($A),*>>(l) } {
                        Some(it) => it,
                        None => return Err("a well-formed closure from C was refused".into()),
                    }
                } else {
                    track::on(|| {
                        let f = Box::new(make_fn_mut::<E, R, $($A),*>());
                        if origin == 0 { $Box::new(f) } else { f.into() }
                    })
                });
                for step in 1..=depth {
                    c.step();
                    match c.choose(4) {
                        0 => {
                            c.log(|| "call".to_string());
                            let _seed = step as u64 * 1000;
                            let (args, got) = track::on(|| {
                                $(let $a = $A::make(_seed + $i);)*
                                let args: Vec<u64> = track::off(|| vec![$($a.digest()),*]);
                                let r: R = match &mut b {
                                    BSlot::Rust(h) => h.call($($a),*),
                                    BSlot::Opt(h) => h.as_mut().unwrap().call($($a),*),
                                    BSlot::Raw(l) => unsafe {
                                        R::from_c((l.call.unwrap())(l.env_ptr, $(into_raw($a)),*))
                                    },
                                };
                                (args, r.digest())
                            });
                            let env = shadow.as_mut().map_or(MAGIC, |e| e.bump());
                            let want = track::off(|| R::make(answer(&args, env)).digest());
                            check_call(&args, want, got)?;
                        },
                        1 => {
                            c.log(|| "convert".to_string());
                            b = match b {
                                BSlot::Rust(h) => BSlot::Raw(unsafe { into_raw(h) }),
                                BSlot::Opt(h) => BSlot::Raw(unsafe { into_raw(h) }),
                                BSlot::Raw(l) => match unsafe { from_raw::<B<R, $($A),*>>(l) } {
                                    Some(h) => BSlot::Rust(h),
                                    None => return Err("a live closure was refused".into()),
                                },
                            };
                        },
                        2 => {
                            c.log(|| "convert to Option".to_string());
                            b = match b {
                                BSlot::Rust(h) => BSlot::Opt(Some(h)),
                                BSlot::Opt(h) => BSlot::Rust(h.unwrap()),
                                BSlot::Raw(l) => match unsafe { from_raw::<Option<B<R, $($A),*>>>(l) } {
                                    Some(Some(h)) => BSlot::Opt(Some(h)),
                                    _ => return Err("a live closure reads as None".into()),
                                },
                            };
                        },
                        _ => {
                            c.log(|| "format it".to_string());
                            if let BSlot::Rust(h) = &b {
                                let _ = format!("{h:?}");
                            }
                            break;
                        },
                    }
                    c.state(hash_of(&(stringify!($Box), origin, matches!(b, BSlot::Raw(_)), step)));
                    check_drops(0, "while owned")?;
                }
                match b {
                    BSlot::Rust(h) => track::on(|| drop(h)),
                    BSlot::Opt(h) => track::on(|| drop(h)),
                    BSlot::Raw(l) => track::on(|| unsafe { (l.free.unwrap())(l.env_ptr); }),
                }
                if foreign {
                    let (_, _, d, bad) = FOREIGN.with(|f| f.get());
                    ensure!(d == 1 && !bad, "free was called {d} times");
                    check_drops(0, "in the end")?;
                } else {
                    check_drops(1, "in the end")?;
                    drop(shadow);
                }
                c.outcome(hash_of(&(stringify!($Box), origin, drops())));
                track::end()
            }

            pub fn borrowed<E: Env, R: Val, $($A: Val),*>(c: &mut Chooser, depth: usize) -> Res {
                reset();
                c.log(|| format!("{}, env {}", stringify!($Ref), std::any::type_name::<E>()));
                let origin = c.choose(2);
                let mut shadow = E::new();
                let mut f = make_fn_mut::<E, R, $($A),*>();
                let mut g = make_fn::<E, R, $($A),*>();
                track::on(|| -> Res {
                    let mut r: $Ref<'_, R, $($A),*> = if origin == 0 { $Ref::new(&mut f) } else { (&mut g).into() };
                    for step in 1..=depth {
                        c.step();
                        let raw = match c.choose(3) {
                            0 => false,
                            1 => true,
                            _ => {
                                c.log(|| "through C and back".to_string());
                                let l = unsafe { into_raw(r) };
                                r = match unsafe { from_raw(l) } {
                                    Some(r) => r,
                                    None => return Err("a live closure was refused".into()),
                                };
                                check_drops(0, "after a round trip")?;
                                continue;
                            },
                        };
                        c.log(|| format!("call (raw: {raw})"));
                        let _seed = step as u64 * 1000;
                        $(let $a = $A::make(_seed + $i);)*
                        let args: Vec<u64> = track::off(|| vec![$($a.digest()),*]);
                        let got: R = if raw {
                            let l: CLayoutOf<$Ref<'_, R, $($A),*>> = unsafe { into_raw(r) };
                            let got = unsafe { R::from_c((l.call.unwrap())(l.env_ptr, $(into_raw($a)),*)) };
                            r = unsafe { from_raw_unchecked(l) };
                            got
                        } else {
                            r.call($($a),*)
                        };
                        let got_ = got.digest();
                        drop(got);
                        track::off(|| {
                            let env = if origin == 0 { shadow.bump() } else { MAGIC };
                            let want = R::make(answer(&args, env)).digest();
                            let r = check_call(&args, want, got_);
                            drop(args);
                            r
                        })?;
                        c.state(hash_of(&(stringify!($Ref), origin, raw, step)));
                    }
                    drop(r);
                    check_drops(0, "after the borrow ended")
                })?;
                drop((f, g));
                check_drops(2, "after the owner dropped it")?;
                c.outcome(hash_of(&(stringify!($Ref), origin, drops())));
                track::end()
            }
        }
    };
}
arity!(n0, ArcDynFn0 ArcDynFn0_Layout, BoxDynFnMut0 BoxDynFnMut0_Layout, RefDynFnMut0 RefDynFnMut0_Layout, 0,);
arity!(n1, ArcDynFn1 ArcDynFn1_Layout, BoxDynFnMut1 BoxDynFnMut1_Layout, RefDynFnMut1 RefDynFnMut1_Layout, 1, A1 a1 1);
arity!(n2, ArcDynFn2 ArcDynFn2_Layout, BoxDynFnMut2 BoxDynFnMut2_Layout, RefDynFnMut2 RefDynFnMut2_Layout, 2, A1 a1 1, A2 a2 2);
arity!(n3, ArcDynFn3 ArcDynFn3_Layout, BoxDynFnMut3 BoxDynFnMut3_Layout, RefDynFnMut3 RefDynFnMut3_Layout, 3, A1 a1 1, A2 a2 2, A3 a3 3);
arity!(n4, ArcDynFn4 ArcDynFn4_Layout, BoxDynFnMut4 BoxDynFnMut4_Layout, RefDynFnMut4 RefDynFnMut4_Layout, 4, A1 a1 1, A2 a2 2, A3 a3 3, A4 a4 4);
arity!(n5, ArcDynFn5 ArcDynFn5_Layout, BoxDynFnMut5 BoxDynFnMut5_Layout, RefDynFnMut5 RefDynFnMut5_Layout, 5, A1 a1 1, A2 a2 2, A3 a3 3, A4 a4 4, A5 a5 5);
arity!(n6, ArcDynFn6 ArcDynFn6_Layout, BoxDynFnMut6 BoxDynFnMut6_Layout, RefDynFnMut6 RefDynFnMut6_Layout, 6, A1 a1 1, A2 a2 2, A3 a3 3, A4 a4 4, A5 a5 5, A6 a6 6);
arity!(n7, ArcDynFn7 ArcDynFn7_Layout, BoxDynFnMut7 BoxDynFnMut7_Layout, RefDynFnMut7 RefDynFnMut7_Layout, 7, A1 a1 1, A2 a2 2, A3 a3 3, A4 a4 4, A5 a5 5, A6 a6 6, A7 a7 7);
arity!(n8, ArcDynFn8 ArcDynFn8_Layout, BoxDynFnMut8 BoxDynFnMut8_Layout, RefDynFnMut8 RefDynFnMut8_Layout, 8, A1 a1 1, A2 a2 2, A3 a3 3, A4 a4 4, A5 a5 5, A6 a6 6, A7 a7 7, A8 a8 8);
arity!(n9, ArcDynFn9 ArcDynFn9_Layout, BoxDynFnMut9 BoxDynFnMut9_Layout, RefDynFnMut9 RefDynFnMut9_Layout, 9, A1 a1 1, A2 a2 2, A3 a3 3, A4 a4 4, A5 a5 5, A6 a6 6, A7 a7 7, A8 a8 8, A9 a9 9);

type Body = fn(&mut Chooser, usize) -> Res;
type Bx = Box_<u64>;
type Vc = repr_c::Vec<u16>;
type Sl = c_slice::Ref<'static, u8>;
type Ob = Option<Bx>;

macro_rules! rows {
    // Every arity with one environment and one return type; two lists of parameter types.
    ($E:ty, $R:ty) => {
        rows!(@ $E, $R,
            [u8] [i64, Big] [f64, u16, Pair] [Bx, u8, bool, i32] [u64, f32, Vc, i8, En] [u8, u64, u8, u64, u8, f32]
            [Pair, i16, f64, usize, Sl, u32, Ob] [Big, Bx, u8, f32, isize, u16, i64, bool]
            [u8, i16, u32, i64, f32, f64, Pair, Bx, En]
        )
    };
    (@ $E:ty, $R:ty, [$($p1:tt)*] [$($p2:tt)*] [$($p3:tt)*] [$($p4:tt)*] [$($p5:tt)*] [$($p6:tt)*] [$($p7:tt)*] [$($p8:tt)*] [$($p9:tt)*]) => {
        &[
            n0::arc::<$E, $R>, n0::boxed::<$E, $R>, n0::borrowed::<$E, $R>,
            n1::arc::<$E, $R, $($p1)*>, n1::boxed::<$E, $R, $($p1)*>, n1::borrowed::<$E, $R, $($p1)*>,
            n2::arc::<$E, $R, $($p2)*>, n2::boxed::<$E, $R, $($p2)*>, n2::borrowed::<$E, $R, $($p2)*>,
            n3::arc::<$E, $R, $($p3)*>, n3::boxed::<$E, $R, $($p3)*>, n3::borrowed::<$E, $R, $($p3)*>,
            n4::arc::<$E, $R, $($p4)*>, n4::boxed::<$E, $R, $($p4)*>, n4::borrowed::<$E, $R, $($p4)*>,
            n5::arc::<$E, $R, $($p5)*>, n5::boxed::<$E, $R, $($p5)*>, n5::borrowed::<$E, $R, $($p5)*>,
            n6::arc::<$E, $R, $($p6)*>, n6::boxed::<$E, $R, $($p6)*>, n6::borrowed::<$E, $R, $($p6)*>,
            n7::arc::<$E, $R, $($p7)*>, n7::boxed::<$E, $R, $($p7)*>, n7::borrowed::<$E, $R, $($p7)*>,
            n8::arc::<$E, $R, $($p8)*>, n8::boxed::<$E, $R, $($p8)*>, n8::borrowed::<$E, $R, $($p8)*>,
            n9::arc::<$E, $R, $($p9)*>, n9::boxed::<$E, $R, $($p9)*>, n9::borrowed::<$E, $R, $($p9)*>,
        ] as &[Body]
    };
}

fn main() {
    let mut s = Session::new();
    let deep = if s.args.thorough { 6 } else { 5 };
    let families: &[(&str, &[Body])] = &[
        ("word-u64", rows!(Word, u64)),
        ("heap-box", rows!(Heap, Bx)),
        ("zst-unit", rows!(Zst, ())),
        ("over-big", rows!(Over, Big)),
        ("large-f64", rows!(Large, f64)),
        ("heap-pair", rows!(Heap, Pair)),
        ("word-bool", rows!(Word, bool)),
        ("word-u8", rows!(Word, u8)),
        ("heap-vec", rows!(Heap, Vc)),
    ];
    let k = families.len() * 30;
    let shallow = if s.args.thorough { 4 } else { 3 };
    s.phase("null", k, |c| families[c.top / 30].1[c.top % 30](c, 0));
    s.phase("all", k, |c| families[c.top / 30].1[c.top % 30](c, shallow));
    // The drop glue and counts do not depend on the parameter types: go deeper with few of them.
    let few: Vec<Body> = families.iter().take(3).flat_map(|f| f.1[..12].iter().copied()).collect();
    s.phase("deep", few.len(), |c| few[c.top](c, deep));
    s.finish()
}
