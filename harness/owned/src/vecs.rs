use safer_ffi::boxed::Box_;
use safer_ffi::layout::{from_raw, from_raw_unchecked, into_raw, CLayoutOf, ReprC};
use safer_ffi::prelude::*;
use safer_ffi::tuple::*;
use std::{
    cell::{Cell, RefCell},
    cmp::Ordering,
    fmt::Debug,
    hash::{Hash, Hasher},
    mem::{self, ManuallyDrop},
};
use vc::{catches, ensure, hash_of, track, Chooser, Res, Session};

// ------------------------------------------------------------------ elements

thread_local! {
    static NEXT: Cell<u32> = const { Cell::new(0) };
    /// How many times each element was made minus dropped (1 when alive), and drops of dead ones.
    static ALIVE: RefCell<[i32; 256]> = const { RefCell::new([0; 256]) };
    static LIVE: Cell<i32> = const { Cell::new(0) };
}
fn born() -> u32 {
    let id = NEXT.with(|n| n.replace(n.get() + 1));
    ALIVE.with(|a| a.borrow_mut()[id as usize] += 1);
    id
}
fn died(id: u32) {
    ALIVE.with(|a| {
        if let Some(x) = a.borrow_mut().get_mut(id as usize) {
            *x -= 1
        } else {
            LIVE.with(|l| l.set(i32::MIN / 2))
        }
    });
}
fn reset() {
    NEXT.with(|n| n.set(0));
    ALIVE.with(|a| *a.borrow_mut() = [0; 256]);
    LIVE.with(|l| l.set(0));
}

pub trait El: Sized + Clone + Debug + Ord + Hash + ReprC {
    const NAME: &'static str;
    const TRACKED: bool;
    const ZST: bool = false;
    fn make(val: u32) -> Self;
    fn val(&self) -> u32;
    fn id(&self) -> u32;
}

impl El for u8 {
    const NAME: &'static str = "u8";
    const TRACKED: bool = false;
    fn make(val: u32) -> Self {
        val as u8
    }
    fn val(&self) -> u32 {
        *self as u32
    }
    fn id(&self) -> u32 {
        0
    }
}
macro_rules! by_val {($($T:ident)*) => ($(
    impl PartialEq for $T { fn eq(&self, o: &Self) -> bool { self.val() == o.val() } }
    impl Eq for $T {}
    impl PartialOrd for $T { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
    impl Ord for $T { fn cmp(&self, o: &Self) -> Ordering { self.val().cmp(&o.val()) } }
    impl Hash for $T { fn hash<H: Hasher>(&self, h: &mut H) { self.val().hash(h) } }
    impl Debug for $T { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{}>", self.val()) } }
)*)}
by_val!(Elem Wide Unit);

/// A C struct that owns memory.
#[derive_ReprC]
#[repr(C)]
pub struct Elem {
    id: u32,
    val: u16,
    heap: Box_<u64>,
}
impl El for Elem {
    const NAME: &'static str = "Elem";
    const TRACKED: bool = true;
    fn make(val: u32) -> Self {
        Elem { id: born(), val: val as u16, heap: Box_::new(val as u64) }
    }
    fn val(&self) -> u32 {
        if *self.heap != self.val as u64 {
            return u32::MAX;
        }
        self.val as u32
    }
    fn id(&self) -> u32 {
        self.id
    }
}
impl Clone for Elem {
    fn clone(&self) -> Self {
        Self::make(self.val as u32)
    }
}
impl Drop for Elem {
    fn drop(&mut self) {
        died(self.id)
    }
}
/// An opaque, over-aligned one.
#[derive_ReprC]
#[repr(opaque)]
pub struct Wide(WideInner);
#[repr(align(64))]
struct WideInner {
    id: u32,
    val: u32,
    text: String,
}
impl El for Wide {
    const NAME: &'static str = "Wide";
    const TRACKED: bool = true;
    fn make(val: u32) -> Self {
        Wide(WideInner { id: born(), val, text: val.to_string() })
    }
    fn val(&self) -> u32 {
        if self as *const _ as usize % 64 != 0 || self.0.text.parse() != Ok(self.0.val) {
            return u32::MAX;
        }
        self.0.val
    }
    fn id(&self) -> u32 {
        self.0.id
    }
}
impl Clone for Wide {
    fn clone(&self) -> Self {
        Self::make(self.0.val)
    }
}
impl Drop for Wide {
    fn drop(&mut self) {
        died(self.0.id)
    }
}
/// A zero-sized one, which counts.
#[derive_ReprC]
#[repr(opaque)]
pub struct Unit {
    _0: (),
}
impl El for Unit {
    const NAME: &'static str = "Unit";
    const TRACKED: bool = true;
    const ZST: bool = true;
    fn make(_: u32) -> Self {
        LIVE.with(|l| l.set(l.get() + 1));
        Unit { _0: () }
    }
    fn val(&self) -> u32 {
        0
    }
    fn id(&self) -> u32 {
        0
    }
}
impl Clone for Unit {
    fn clone(&self) -> Self {
        Self::make(0)
    }
}
impl Drop for Unit {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}

/// The elements of all containers of the model are alive, once, and nothing else is.
fn check_alive<E: El>(models: &mut dyn Iterator<Item = &[(u32, u32)]>, what: &str) -> Res {
    if !E::TRACKED {
        return Ok(());
    }
    let mut want = [0i32; 256];
    let mut n = 0;
    for m in models {
        for &(id, _) in m {
            want[id as usize] += 1;
            n += 1;
        }
    }
    if E::ZST {
        let l = LIVE.with(|l| l.get());
        ensure!(l == n, "{what}: {l} elements are alive, {n} should be");
        return Ok(());
    }
    ensure!(LIVE.with(|l| l.get()) == 0, "{what}: something that is no element was dropped");
    ALIVE.with(|a| {
        let a = a.borrow();
        for i in 0..256 {
            ensure!(a[i] == want[i], "{what}: element #{i} is alive {} times instead of {}", a[i], want[i]);
        }
        Ok(())
    })
}

fn model_of<E: El>(s: &[E]) -> Vec<(u32, u32)> {
    track::off(|| s.iter().map(|e| (e.id(), e.val())).collect())
}

// ------------------------------------------------------------------ vectors and boxed slices

enum F<E: El> {
    RV(Vec<E>),
    CV(repr_c::Vec<E>),
    LV(CLayoutOf<repr_c::Vec<E>>),
    OV(Option<repr_c::Vec<E>>),
    RB(Box<[E]>),
    CB(c_slice::Box<E>),
    LB(CLayoutOf<c_slice::Box<E>>),
    OB(Option<c_slice::Box<E>>),
}
use F::*;
struct Slot<E: El> {
    f: F<E>,
    model: Vec<(u32, u32)>,
    ptr: usize,
    /// For vectors.
    cap: usize,
}
macro_rules! raw_of {($v:expr, $T:ty) => ( unsafe { mem::transmute_copy::<$T, CLayoutOf<$T>>($v) } )}

impl<E: El> F<E> {
    /// (address, length, capacity) as the value itself says.
    fn parts(&self) -> (usize, usize, usize) {
        // (A vector of zero-sized elements has no capacity to speak of.)
        fn v<E: El>(l: CLayoutOf<repr_c::Vec<E>>) -> (usize, usize, usize) {
            (l.ptr as usize, l.len, l.cap)
        }
        fn b<E: El>(l: CLayoutOf<c_slice::Box<E>>) -> (usize, usize, usize) {
            (l.ptr as usize, l.len, l.len)
        }
        match self {
            RV(x) => (x.as_ptr() as usize, x.len(), x.capacity()),
            CV(x) => v::<E>(raw_of!(x, repr_c::Vec<E>)),
            OV(x) => v::<E>(raw_of!(x.as_ref().unwrap(), repr_c::Vec<E>)),
            LV(l) => v::<E>(*l),
            RB(x) => (x.as_ptr() as usize, x.len(), x.len()),
            CB(x) => b::<E>(raw_of!(x, c_slice::Box<E>)),
            OB(x) => b::<E>(raw_of!(x.as_ref().unwrap(), c_slice::Box<E>)),
            LB(l) => b::<E>(*l),
        }
    }
    fn name(&self) -> &'static str {
        match self {
            RV(_) => "Vec",
            CV(_) => "repr_c::Vec",
            LV(_) => "raw vector",
            OV(_) => "Option<repr_c::Vec>",
            RB(_) => "Box<[_]>",
            CB(_) => "c_slice::Box",
            LB(_) => "raw boxed slice",
            OB(_) => "Option<c_slice::Box>",
        }
    }
    fn slice(&self) -> &[E] {
        match self {
            RV(x) => x,
            CV(x) => x,
            OV(x) => x.as_ref().unwrap(),
            LV(l) => unsafe { std::slice::from_raw_parts(l.ptr as *const E, l.len) },
            RB(x) => x,
            CB(x) => x,
            OB(x) => x.as_ref().unwrap(),
            LB(l) => unsafe { std::slice::from_raw_parts(l.ptr as *const E, l.len) },
        }
    }
    fn is_vec(&self) -> bool {
        matches!(self, RV(_) | CV(_) | LV(_) | OV(_))
    }
}

fn values(n: usize, base: u32) -> Vec<u32> {
    (0..n as u32).map(|i| base + i * 3 % 7).collect()
}
fn make_vec<E: El>(n: usize, spare: usize, base: u32) -> Vec<E> {
    let vals = track::off(|| values(n, base));
    let mut v = Vec::with_capacity(n + spare);
    v.extend(vals.iter().map(|&x| E::make(x)));
    track::off(|| drop(vals));
    v
}

const MUTATORS: usize = 12;
fn mutate<E: El>(v: &mut Vec<E>, k: usize) -> &'static str {
    match k {
        0 => {
            v.push(E::make(50));
            "push"
        },
        1 => {
            drop(v.pop());
            "pop"
        },
        2 => {
            v.reserve_exact(40);
            v.push(E::make(51));
            "reserve and push"
        },
        3 => {
            v.shrink_to_fit();
            "shrink"
        },
        4 => {
            v.clear();
            "clear"
        },
        5 => {
            *v = Vec::new();
            "replace by an empty one"
        },
        6 => {
            v.insert(0, E::make(52));
            "insert at 0"
        },
        7 => {
            v.extend((0..9).map(|x| E::make(60 + x)));
            "extend by 9"
        },
        8 => {
            let old = mem::replace(v, make_vec(2, 5, 70));
            drop(old);
            "replace by another"
        },
        9 => {
            v.truncate(1);
            "truncate"
        },
        10 => {
            if !v.is_empty() {
                drop(v.swap_remove(0));
            }
            "swap_remove"
        },
        _ => "nothing",
    }
}

fn hash_like_slice<T: Hash>(t: &[T], h: u64) -> bool {
    hash_of(t) == h
}

/// Every way of looking at the elements through the C views.
fn views<E: El>(s: &Slot<E>, other: &[E]) -> Res {
    let (ptr, len) = (s.ptr, s.model.len());
    let same = |what: &str, got: &[E]| -> Res {
        ensure!(got.as_ptr() as usize == ptr && got.len() == len, "{what} is {} elements at {:#x}, not {len} at {ptr:#x}", got.len(), got.as_ptr() as usize);
        ensure!(model_of(got) == s.model, "{what} shows other elements: {:?} instead of {:?}", model_of(got), s.model);
        Ok(())
    };
    let r: c_slice::Ref<'_, E> = match &s.f {
        CV(x) => {
            same("Vec::deref", x)?;
            ensure!(track::off(|| format!("{x:?}") == format!("{:?}", &x[..])), "Vec: Debug");
            x.as_ref()
        },
        CB(x) => {
            same("c_slice::Box::deref", x)?;
            same("c_slice::Box::as_slice", x.as_slice())?;
            ensure!(hash_like_slice(&x[..], hash_of(x)), "c_slice::Box: Hash");
            x.as_ref()
        },
        f => f.slice().into(),
    };
    same("c_slice::Ref", r.as_slice())?;
    same("c_slice::Ref::deref", &r)?;
    same("a clone of c_slice::Ref", r.clone().as_slice())?;
    let l = unsafe { into_raw(r) };
    ensure!(l.ptr as usize == ptr && l.len == len, "the raw c_slice::Ref is {} at {:#x}", l.len, l.ptr as usize);
    let back: c_slice::Ref<'_, E> = unsafe { from_raw(l) }.ok_or("a valid slice was refused")?;
    same("c_slice::Ref from raw", back.as_slice())?;
    let raw: c_slice::Raw<E> = r.into();
    ensure!(raw.ptr.as_ptr() as usize == ptr && raw.len == len, "c_slice::Raw");
    same("c_slice::Raw::as_ref", unsafe { raw.as_ref() }.as_slice())?;
    let o: c_slice::Ref<'_, E> = other.into();
    ensure!((r == o) == (r[..] == other[..]), "c_slice::Ref: PartialEq");
    ensure!(r.cmp(&o) == r[..].cmp(other), "c_slice::Ref: Ord");
    ensure!(r.partial_cmp(&o) == r[..].partial_cmp(other), "c_slice::Ref: PartialOrd");
    ensure!(hash_of(&r) == hash_of(&r[..]), "c_slice::Ref: Hash");
    ensure!(track::off(|| format!("{r:?}") == format!("{:?}", &r[..])), "c_slice::Ref: Debug");
    ensure!(<c_slice::Ref<'_, E>>::default().is_empty() && <c_slice::Mut<'_, E>>::default().is_empty(), "Default is not empty");
    Ok(())
}

/// Reverses the elements through a mutable view.
fn rewrite<E: El>(s: &mut Slot<E>, how: usize) -> Res {
    let (ptr, len) = (s.ptr, s.model.len());
    let m: c_slice::Mut<'_, E> = match &mut s.f {
        CV(x) if how == 0 => x.as_mut(),
        CB(x) if how == 0 => x.as_mut(),
        CV(x) => (&mut x[..]).into(),
        CB(x) => {
            if how == 1 {
                x.as_slice_mut().into()
            } else {
                (&mut x[..]).into()
            }
        },
        _ => return Ok(()),
    };
    let l = unsafe { into_raw(m) };
    ensure!(l.ptr as usize == ptr && l.len == len, "the raw c_slice::Mut is {} at {:#x}, not {len} at {ptr:#x}", l.len, l.ptr as usize);
    let mut m: c_slice::Mut<'_, E> = unsafe { from_raw(l) }.ok_or("a valid slice was refused")?;
    ensure!(m.as_ref().len() == len && m.as_ref().as_ptr() as usize == ptr, "c_slice::Mut::as_ref");
    ensure!(hash_of(&m) == hash_of(&m[..]) && track::off(|| format!("{m:?}") == format!("{:?}", &m[..])), "c_slice::Mut: Hash or Debug");
    match how {
        0 => m.as_mut().as_slice().reverse(),
        1 => m.reverse(),
        _ => {
            let mut raw: c_slice::Raw<E> = m.into();
            ensure!(raw.len == len && raw.ptr.as_ptr() as usize == ptr, "c_slice::Raw from Mut");
            unsafe { raw.as_mut() }.as_slice().reverse();
        },
    }
    s.model.reverse();
    Ok(())
}

fn vectors<E: El>(c: &mut Chooser, depth: usize) -> Res
where
    repr_c::Vec<E>: ReprC,
    Option<repr_c::Vec<E>>: ReprC<CLayout = CLayoutOf<repr_c::Vec<E>>>,
    Option<c_slice::Box<E>>: ReprC<CLayout = CLayoutOf<c_slice::Box<E>>>,
{
    reset();
    // The origin.
    let f: F<E> = track::on(|| match c.top % 10 {
        0 => RV(Vec::new()),
        1 => RV(make_vec(0, 3, 1)),
        2 => RV(make_vec(1, 0, 1)),
        3 => RV(make_vec(2, 2, 1)),
        4 => RV(make_vec(3, 0, 1)),
        5 => CV(repr_c::Vec::EMPTY),
        6 => CV(safer_ffi::c_vec![E::make(4), E::make(2)]),
        7 => RB(make_vec(0, 0, 1).into_boxed_slice()),
        8 => RB(make_vec(3, 0, 1).into_boxed_slice()),
        _ => CB(Default::default()),
    });
    c.log(|| format!("{} of {}: {:?}", f.name(), E::NAME, f.slice()));
    let (ptr, _, cap) = f.parts();
    let mut slots = vec![Slot { model: model_of(f.slice()), f, ptr, cap }];
    let mut made: u32 = 0;
    for _ in 0..depth {
        if slots.is_empty() {
            break;
        }
        c.step();
        let i = c.choose(slots.len());
        let n_ops = match slots[i].f {
            RV(_) => 5,
            CV(_) => 9 + 2 * MUTATORS,
            LV(_) => 2,
            OV(_) => 3,
            RB(_) => 3,
            CB(_) => 9,
            LB(_) => 2,
            OB(_) => 3,
        };
        let op = c.choose(n_ops);
        let s = slots.remove(i);
        c.log(|| format!("op {op} on #{i} ({}): {:?}", s.f.name(), s.f.slice()));
        let Slot { f, model, ptr, cap } = s;
        // What became of it: the same memory unless said otherwise.
        enum Next<E: El> {
            Same(F<E>),
            /// Possibly elsewhere: contents as given, address and capacity whatever Rust says.
            Moved(F<E>),
            Mutated(F<E>, Vec<(u32, u32)>, usize, usize),
            Clone(F<E>, F<E>),
            Gone,
            /// Taken out, leaving an empty one.
            Taken(F<E>, F<E>),
            Write(F<E>, usize),
        }
        use Next::*;
        let next: Next<E> = track::on(|| -> Result<Next<E>, String> { Ok(match (f, op) {
            (RV(x), 0) => Same(CV(x.into())),
            (RV(x), 1) => Moved(RB(x.into_boxed_slice())),
            (RV(x), 2) => Same(RV(x)),
            (RV(mut x), 3) => {
                x.push(E::make(90));
                let m = model_of(&x);
                let (p, k) = (x.as_ptr() as usize, x.capacity());
                Mutated(RV(x), m, p, k)
            },
            (RV(_), _) => Gone,
            (CV(x), 0) => Same(RV(x.into())),
            (CV(x), 1) => Same(LV(unsafe { into_raw(x) })),
            (CV(x), 2) => Same(OV(Some(x))),
            (CV(x), 3) => {
                let n = x.clone();
                Clone(CV(x), CV(n))
            },
            (CV(_), 4) => Gone,
            (CV(mut x), 5) => {
                let t = mem::replace(&mut x, repr_c::Vec::EMPTY);
                Taken(CV(t), CV(x))
            },
            (CV(x), op @ 6..=8) => Write(CV(x), op - 6),
            (CV(mut x), op) => {
                let (k, panics) = ((op - 9) / 2, (op - 9) % 2 == 1);
                let mut seen = None;
                let (got, inside) = {
                    let r = catches(|| {
                        x.with_rust_mut(|v| {
                            seen = Some((v.as_ptr() as usize, v.capacity(), model_of(v)));
                            mutate(v, k);
                            let m = (model_of(v), v.as_ptr() as usize, v.capacity());
                            track::off(|| LAST.with(|l| *l.borrow_mut() = Some(m)));
                            if panics {
                                std::panic::panic_any(7u8)
                            }
                            k as u64 + 1000
                        })
                    });
                    (r, track::off(|| LAST.with(|l| l.borrow_mut().take())))
                };
                let expect = if panics { Err(()) } else { Ok(k as u64 + 1000) };
                let Some((m, p, kap)) = inside else { return Err("the closure did not run".to_string()) };
                if got != expect {
                    return Err(format!("with_rust_mut gave {got:?} instead of {expect:?}"));
                }
                track::off(|| {
                    if seen != Some((ptr, if E::ZST { usize::MAX } else { cap }, model.clone())) {
                        return Err(format!("with_rust_mut showed {seen:?} instead of {:?}", (ptr, cap, &model)));
                    }
                    drop(seen.take());
                    Ok(())
                })?;
                Mutated(CV(x), m, p, kap)
            },
            (LV(l), 0) => Same(CV(unsafe { from_raw(l) }.ok_or("a valid vector was refused")?)),
            (LV(l), _) => Same(OV(unsafe { from_raw::<Option<repr_c::Vec<E>>>(l) }.ok_or("refused as an Option")?.ok_or("a vector reads as None")?.into())),
            (OV(x), 0) => Same(CV(x.unwrap())),
            (OV(x), 1) => Same(LV(unsafe { into_raw(x) })),
            (OV(_), _) => Gone,
            (RB(x), 0) => Same(CB(x.into())),
            (RB(x), 1) => {
                let x = x.into_vec();
                let (m, p, k) = (model_of(&x), x.as_ptr() as usize, x.capacity());
                Mutated(RV(x), m, p, k)
            },
            (RB(_), _) => Gone,
            (CB(x), 0) => Same(RB(x.into())),
            (CB(x), 1) => Same(LB(unsafe { into_raw(x) })),
            (CB(x), 2) => Same(OB(Some(x))),
            (CB(x), 3) => {
                let n = x.clone();
                Clone(CB(x), CB(n))
            },
            (CB(_), 4) => Gone,
            (CB(mut x), 5) => {
                let t = mem::take(&mut x);
                Taken(CB(t), CB(x))
            },
            (CB(x), op) => Write(CB(x), op - 6),
            (LB(l), 0) => Same(CB(unsafe { from_raw(l) }.ok_or("a valid boxed slice was refused")?)),
            (LB(l), _) => Same(OB(unsafe { from_raw::<Option<c_slice::Box<E>>>(l) }.ok_or("refused as an Option")?.ok_or("a boxed slice reads as None")?.into())),
            (OB(x), 0) => Same(CB(x.unwrap())),
            (OB(x), 1) => Same(LB(unsafe { into_raw(x) })),
            (OB(_), _) => Gone,
            #[allow(unreachable_patterns)]
            _ => Gone,
        }) })?;
        match next {
            Same(f) => slots.insert(i, Slot { f, model, ptr, cap }),
            Moved(f) => {
                let (ptr, _, cap) = f.parts();
                slots.insert(i, Slot { f, model, ptr, cap })
            },
            Mutated(f, model, ptr, cap) => slots.insert(i, Slot { f, model, ptr, cap }),
            Clone(f, n) => {
                made += 1;
                let (p, len, k) = n.parts();
                let m = model_of(n.slice());
                ensure!(len == model.len() && m.iter().map(|x| x.1).eq(model.iter().map(|x| x.1)), "the clone is {m:?}, the original {model:?}");
                ensure!(k >= len, "the clone's capacity is {k} for {len} elements");
                ensure!(len == 0 || mem::size_of::<E>() == 0 || p != ptr, "the clone shares the original's memory");
                slots.insert(i, Slot { f, model, ptr, cap });
                if made < 2 {
                    slots.push(Slot { f: n, model: m, ptr: p, cap: k });
                } else {
                    track::on(|| drop(n));
                }
            },
            Gone => drop(model),
            Taken(f, e) => {
                ensure!(e.slice().is_empty(), "what was left behind is not empty: {:?}", e.slice());
                slots.insert(i, Slot { f, model, ptr, cap });
                track::on(|| drop(e));
            },
            Write(f, how) => {
                let mut s = Slot { f, model, ptr, cap };
                track::on(|| rewrite(&mut s, how))?;
                slots.insert(i, s)
            },
        }
        for s in &slots {
            let (p, len, k) = s.f.parts();
            let what = s.f.name();
            ensure!(len == s.model.len(), "{what}: {len} elements instead of {}", s.model.len());
            ensure!(p == s.ptr, "{what}: the elements are at {p:#x} instead of {:#x}", s.ptr);
            if s.f.is_vec() && !E::ZST {
                ensure!(k == s.cap, "{what}: the capacity is {k} instead of {}", s.cap);
            }
            let m = model_of(s.f.slice());
            ensure!(m == s.model, "{what}: the elements are {m:?} instead of {:?}", s.model);
            let other = if slots.len() > 1 { slots[1].f.slice() } else { &[] };
            track::on(|| views(s, other))?;
        }
        check_alive::<E>(&mut slots.iter().map(|s| &s.model[..]), "after the step")?;
        c.state(hash_of(&(E::NAME, slots.iter().map(|s| (s.f.name(), s.model.iter().map(|m| m.1).collect::<Vec<_>>(), s.cap)).collect::<Vec<_>>())));
    }
    c.outcome(hash_of(&(E::NAME, slots.iter().map(|s| (s.f.name(), s.model.len(), s.cap)).collect::<Vec<_>>())));
    for s in slots {
        track::on(|| match s.f {
            RV(x) => drop(x),
            CV(x) => drop(x),
            LV(l) => drop(unsafe { from_raw_unchecked::<repr_c::Vec<E>>(l) }),
            OV(x) => drop(x),
            RB(x) => drop(x),
            CB(x) => drop(x),
            LB(l) => drop(unsafe { from_raw_unchecked::<c_slice::Box<E>>(l) }),
            OB(x) => drop(x),
        });
    }
    check_alive::<E>(&mut std::iter::empty(), "in the end")?;
    track::end()
}
thread_local!(static LAST: RefCell<Option<(Vec<(u32, u32)>, usize, usize)>> = const { RefCell::new(None) });

// ------------------------------------------------------------------ boxes

fn boxes<E: El>(c: &mut Chooser, depth: usize) -> Res
where
    Option<Box_<E>>: ReprC<CLayout = CLayoutOf<Box_<E>>>,
{
    reset();
    enum B<E: El> {
        R(Box<E>),
        C(Box_<E>),
        L(CLayoutOf<Box_<E>>),
        O(Option<Box_<E>>),
    }
    use B::*;
    impl<E: El> B<E> {
        fn get(&self) -> &E {
            match self {
                R(x) => x,
                C(x) => x,
                L(l) => unsafe { &*(*(l as *const _ as *const *const E)) },
                O(x) => x.as_ref().unwrap(),
            }
        }
    }
    struct S<E: El> {
        b: B<E>,
        m: (u32, u32),
        ptr: usize,
    }
    let b = track::on(|| match c.choose(3) {
        0 => R(Box::new(E::make(5))),
        1 => C(Box_::new(E::make(6))),
        _ => C(Box::new(E::make(7)).into()),
    });
    let of = |b: B<E>| {
        let (ptr, m) = (b.get() as *const E as usize, model_of(std::slice::from_ref(b.get()))[0]);
        S { b, m, ptr }
    };
    let mut slots = vec![of(b)];
    for _ in 0..depth {
        if slots.is_empty() {
            break;
        }
        c.step();
        let i = c.choose(slots.len());
        let S { b, m, ptr } = slots.remove(i);
        let op = c.choose(match b {
            R(_) => 2,
            C(_) => 7,
            L(_) => 2,
            O(_) => 3,
        });
        c.log(|| format!("op {op} on #{i} {}", match b { R(_) => "Box", C(_) => "Box_", L(_) => "raw box", O(_) => "Option<Box_>" }));
        let mut fresh = None;
        let mut changed = None;
        let b: Option<B<E>> = track::on(|| -> Result<_, String> {
            Ok(Some(match (b, op) {
                (R(x), 0) => C(x.into()),
                (R(_), _) => return Ok(None),
                (C(x), 0) => R(x.into()),
                (C(x), 1) => L(unsafe { into_raw(x) }),
                (C(x), 2) => O(Some(x)),
                (C(x), 3) => {
                    fresh = Some(C(x.clone()));
                    C(x)
                },
                (C(mut x), 4) => {
                    *x = E::make(30);
                    changed = Some(());
                    C(x)
                },
                (C(x), 5) => {
                    let r: Box<E> = x.into();
                    let v: E = *r;
                    fresh = Some(R(Box::new(v)));
                    return Ok(None);
                },
                (C(_), _) => return Ok(None),
                (L(l), 0) => C(unsafe { from_raw(l) }.ok_or("a valid box was refused")?),
                (L(l), _) => O(Some(unsafe { from_raw::<Option<Box_<E>>>(l) }.ok_or("refused as an Option")?.ok_or("a box reads as None")?)),
                (O(x), 0) => C(x.unwrap()),
                (O(x), 1) => L(unsafe { into_raw(x) }),
                (O(_), _) => return Ok(None),
                #[allow(unreachable_patterns)]
                _ => return Ok(None),
            }))
        })?;
        if let Some(b) = b {
            let new = of(b);
            let m = if changed.is_some() { (new.m.0, if E::ZST { 0 } else { 30 }) } else { m };
            ensure!(new.ptr == ptr, "the value is at {:#x} instead of {ptr:#x}", new.ptr);
            ensure!(new.m == m, "the value is {:?} instead of {m:?}", new.m);
            if let C(x) = &new.b {
                ensure!(track::off(|| format!("{x:?}") == format!("{:?}", **x)), "Box_: Debug");
            }
            slots.insert(i, new);
        }
        if let Some(f) = fresh {
            let n = of(f);
            ensure!(n.m.1 == m.1, "the clone is {:?} instead of {m:?}", n.m);
            ensure!(mem::size_of::<E>() == 0 || n.ptr != ptr || slots.len() <= i, "the clone shares the original");
            slots.push(n);
        }
        let ms: Vec<_> = slots.iter().map(|s| [s.m]).collect();
        check_alive::<E>(&mut ms.iter().map(|m| &m[..]), "after the step")?;
        c.state(hash_of(&(E::NAME, "box", slots.iter().map(|s| (mem::discriminant(&s.b), s.m.1)).collect::<Vec<_>>())));
    }
    c.outcome(hash_of(&(E::NAME, slots.len())));
    for s in slots {
        track::on(|| match s.b {
            R(x) => drop(x),
            C(x) => drop(x),
            L(l) => drop(unsafe { from_raw_unchecked::<Box_<E>>(l) }),
            O(x) => drop(x),
        });
    }
    check_alive::<E>(&mut std::iter::empty(), "in the end")?;
    track::end()
}

// ------------------------------------------------------------------ strings

enum S {
    RS(String),
    CS(repr_c::String),
    LS(CLayoutOf<repr_c::String>),
    RB(Box<str>),
    CB(safer_ffi::prelude::str::Box),
    LB(CLayoutOf<safer_ffi::prelude::str::Box>),
}
impl S {
    fn parts(&self) -> (usize, usize, Option<usize>) {
        match self {
            S::RS(x) => (x.as_ptr() as usize, x.len(), Some(x.capacity())),
            S::CS(x) => {
                let l = raw_of!(x, repr_c::String);
                (l.ptr as usize, l.len, Some(l.cap))
            },
            S::LS(l) => (l.ptr as usize, l.len, Some(l.cap)),
            S::RB(x) => (x.as_ptr() as usize, x.len(), None),
            S::CB(x) => {
                let l = raw_of!(x, safer_ffi::prelude::str::Box);
                (l.ptr as usize, l.len, None)
            },
            S::LB(l) => (l.ptr as usize, l.len, None),
        }
    }
    fn text(&self) -> &str {
        match self {
            S::RS(x) => x,
            S::CS(x) => x,
            S::RB(x) => x,
            S::CB(x) => x,
            S::LS(l) => unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(l.ptr as *const u8, l.len)) },
            S::LB(l) => unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(l.ptr as *const u8, l.len)) },
        }
    }
    fn name(&self) -> &'static str {
        match self {
            S::RS(_) => "String",
            S::CS(_) => "repr_c::String",
            S::LS(_) => "raw string",
            S::RB(_) => "Box<str>",
            S::CB(_) => "str::Box",
            S::LB(_) => "raw boxed str",
        }
    }
}
const TEXTS: [&str; 5] = ["", "a", "é\0b", "日本語 text", "0123456789abcdef"];
const STR_MUTATORS: usize = 9;
fn mutate_str(s: &mut String, k: usize) {
    match k {
        0 => s.push('é'),
        1 => drop(s.pop()),
        2 => s.reserve_exact(50),
        3 => s.shrink_to_fit(),
        4 => s.clear(),
        5 => *s = String::new(),
        6 => s.insert_str(0, "front"),
        7 => *s = "another".to_string(),
        _ => s.push_str("more and more and more"),
    }
}

fn strings(c: &mut Chooser, depth: usize) -> Res {
    use safer_ffi::prelude::str as c_str;
    reset();
    let t = TEXTS[c.top % TEXTS.len()];
    let f = track::on(|| match c.top / TEXTS.len() {
        0 => S::RS(t.to_string()),
        1 => {
            let mut s = String::with_capacity(t.len() + 4);
            s.push_str(t);
            S::RS(s)
        },
        2 => S::CS(t.into()),
        3 => S::CS(if t.is_empty() { repr_c::String::EMPTY } else { t.to_string().into() }),
        4 => S::RB(t.into()),
        5 => S::CB(t.into()),
        6 => S::CB(t.to_string().into()),
        _ => S::CB(Box::<str>::from(t).into()),
    });
    c.log(|| format!("{} {:?}", f.name(), f.text()));
    struct Slot {
        f: S,
        m: String,
        at: (usize, Option<usize>),
    }
    let of = |f: S| {
        let p = f.parts();
        Slot { m: f.text().to_string(), at: (p.0, p.2), f }
    };
    let s = of(f);
    ensure!(s.m == t, "{:?} made from {t:?}", s.m);
    let mut slots = vec![s];
    for _ in 0..depth {
        if slots.is_empty() {
            break;
        }
        c.step();
        let i = c.choose(slots.len());
        let Slot { f, mut m, mut at } = slots.remove(i);
        let op = c.choose(match f {
            S::RS(_) => 3,
            S::CS(_) => 4 + 2 * STR_MUTATORS,
            S::LS(_) => 1,
            S::RB(_) => 3,
            S::CB(_) => 4,
            S::LB(_) => 1,
        });
        c.log(|| format!("op {op} on #{i} ({}) {m:?}", f.name()));
        let mut fresh = None;
        let mut moved = false;
        let mut inside = None;
        let next = track::on(|| -> Result<Option<S>, String> {
            Ok(Some(match (f, op) {
                (S::RS(x), 0) => S::CS(x.into()),
                (S::RS(x), 1) => {
                    moved = true;
                    S::CB(x.into())
                },
                (S::CS(x), 0) => S::RS(x.into()),
                (S::CS(x), 1) => S::LS(unsafe { into_raw(x) }),
                (S::CS(x), 2) => {
                    fresh = Some(S::CS(x.clone()));
                    S::CS(x)
                },
                (S::CS(mut x), op) if op >= 4 => {
                    let (k, panics) = ((op - 4) / 2, op % 2 == 1);
                    let mut before = None;
                    let got = catches(|| {
                        x.with_rust_mut(|s| {
                            track::off(|| before = Some((s.clone(), (s.as_ptr() as usize, Some(s.capacity())))));
                            mutate_str(s, k);
                            track::off(|| inside = Some((s.clone(), (s.as_ptr() as usize, Some(s.capacity())))));
                            if panics {
                                std::panic::panic_any(8u8)
                            }
                            k
                        })
                    });
                    track::off(|| {
                        ensure!(before == Some((m.clone(), at)), "with_rust_mut showed {before:?}, not {m:?} {at:?}");
                        drop(before.take());
                        ensure!(got == if panics { Err(()) } else { Ok(k) }, "with_rust_mut gave {got:?}");
                        Ok(())
                    })?;
                    S::CS(x)
                },
                (S::LS(l), _) => S::CS(unsafe { from_raw(l) }.ok_or("a valid string was refused")?),
                (S::RB(x), 0) => S::CB(x.into()),
                (S::RB(x), 1) => S::RS(x.into()),
                (S::CB(x), 0) => S::RB(x.into()),
                (S::CB(x), 1) => S::LB(unsafe { into_raw(x) }),
                (S::CB(x), 2) => S::RS(x.into()),
                (S::LB(l), _) => S::CB(unsafe { from_raw(l) }.ok_or("a valid boxed str was refused")?),
                _ => return Ok(None),
            }))
        })?;
        if let Some((t, a)) = inside {
            m = t;
            at = a;
        }
        if let Some(f) = next {
            let p = f.parts();
            ensure!(f.text() == m, "{} holds {:?} instead of {m:?}", f.name(), f.text());
            if moved {
                at = (p.0, p.2);
            }
            ensure!(p.0 == at.0, "{}: the text moved to {:#x} from {:#x}", f.name(), p.0, at.0);
            if let (Some(a), Some(b)) = (p.2, at.1) {
                ensure!(a == b, "{}: the capacity is {a} instead of {b}", f.name());
            }
            at.1 = p.2;
            slots.insert(i, Slot { f, m: m.clone(), at });
        }
        if let Some(f) = fresh {
            ensure!(f.text() == m, "the clone holds {:?} instead of {m:?}", f.text());
            let n = of(f);
            ensure!(m.is_empty() || n.at.0 != at.0, "the clone shares the memory");
            if slots.len() < 3 {
                slots.push(n);
            } else {
                track::on(|| drop(n.f));
            }
        }
        for s in &slots {
            ensure!(s.f.text() == s.m, "{} holds {:?} instead of {:?}", s.f.name(), s.f.text(), s.m);
            let r: c_str::Ref<'_> = match &s.f {
                S::CB(x) => {
                    ensure!(format!("{x:?}") == format!("{:?}", s.m) && AsRef::<str>::as_ref(x) == s.m, "str::Box: Debug or AsRef");
                    x.as_ref()
                },
                S::CS(x) => {
                    ensure!(format!("{x:?}") == format!("{:?}", s.m) && format!("{x}") == s.m, "repr_c::String: Debug or Display");
                    (**x).into()
                },
                f => f.text().into(),
            };
            let l = unsafe { into_raw(r) };
            ensure!(l.ptr as usize == s.at.0 && l.len == s.m.len(), "the raw str::Ref is {} at {:#x}", l.len, l.ptr as usize);
            let r: c_str::Ref<'_> = unsafe { from_raw(l) }.ok_or("a valid str::Ref was refused")?;
            ensure!(r.as_str() == s.m && &*r == s.m && AsRef::<str>::as_ref(&r) == s.m && format!("{r:?}") == format!("{:?}", s.m), "str::Ref: contents");
            ensure!(String::from(r) == s.m, "String from str::Ref");
        }
        c.state(hash_of(&slots.iter().map(|s| (s.f.name(), &s.m, s.at.1)).collect::<Vec<_>>()));
    }
    c.outcome(hash_of(&slots.iter().map(|s| (s.f.name(), &s.m)).collect::<Vec<_>>()));
    for s in slots {
        track::on(|| match s.f {
            S::RS(x) => drop(x),
            S::CS(x) => drop(x),
            S::RB(x) => drop(x),
            S::CB(x) => drop(x),
            S::LS(l) => drop(unsafe { from_raw_unchecked::<repr_c::String>(l) }),
            S::LB(l) => drop(unsafe { from_raw_unchecked::<c_str::Box>(l) }),
        });
    }
    track::end()
}

// ------------------------------------------------------------------ tuples

macro_rules! tuple_case {($c:expr, $Tuple:ident, $($f:ident $k:literal),*) => {{
    let c: &mut Chooser = $c;
    reset();
    type T = $Tuple<$( tuple_case!(@ty $f) ),*>;
    let t = track::on(|| T { $( $f: Elem::make(10 + $k) ),* });
    let want: Vec<(u32, u32)> = vec![$( ($k, 10 + $k) ),*];
    enum St { R(T), L(CLayoutOf<T>) }
    let mut st = St::R(t);
    let mut alive = want.clone();
    loop {
        c.step();
        match c.choose(3) {
            0 => {
                c.log(|| "convert".to_string());
                st = match st {
                    St::R(t) => {
                        let l = unsafe { into_raw(t) };
                        $( ensure!((l.$f.id, l.$f.val as u32) == (want[$k].0, want[$k].1), "field {} of the raw tuple", $k); )*
                        St::L(l)
                    },
                    St::L(l) => St::R(unsafe { from_raw(l) }.ok_or("a valid tuple was refused")?),
                };
            },
            1 => {
                c.log(|| "take it apart".to_string());
                let t = match st { St::R(t) => t, St::L(l) => unsafe { from_raw_unchecked::<T>(l) } };
                let T { $($f),* } = t;
                $(
                    ensure!((Elem::id(&$f), El::val(&$f)) == want[$k], "field {} is {:?}", $k, (Elem::id(&$f), El::val(&$f)));
                    track::on(|| drop($f));
                    alive.retain(|x| x.0 != $k);
                    check_alive::<Elem>(&mut std::iter::once(&alive[..]), "after dropping a field")?;
                )*
                break;
            },
            _ => {
                c.log(|| "drop".to_string());
                track::on(|| match st { St::R(t) => drop(t), St::L(l) => drop(unsafe { from_raw_unchecked::<T>(l) }) });
                break;
            },
        }
        check_alive::<Elem>(&mut std::iter::once(&alive[..]), "after converting")?;
        if let St::R(t) = &st { $( ensure!((t.$f.id(), t.$f.val()) == want[$k], "field {}", $k); )* }
        if c.transitions % 1 == 0 && DEPTH.with(|d| { d.set(d.get() + 1); d.get() > 4 }) {
            track::on(|| match st { St::R(t) => drop(t), St::L(l) => drop(unsafe { from_raw_unchecked::<T>(l) }) });
            break;
        }
    }
    DEPTH.with(|d| d.set(0));
    check_alive::<Elem>(&mut std::iter::empty(), "in the end")?;
    track::end()
}};
    (@ty $f:ident) => { Elem };
}
thread_local!(static DEPTH: Cell<usize> = const { Cell::new(0) });
fn tuples(c: &mut Chooser) -> Res {
    DEPTH.with(|d| d.set(0));
    match c.top {
        0 => tuple_case!(c, Tuple1, _0 0),
        1 => tuple_case!(c, Tuple2, _0 0, _1 1),
        2 => tuple_case!(c, Tuple3, _0 0, _1 1, _2 2),
        3 => tuple_case!(c, Tuple4, _0 0, _1 1, _2 2, _3 3),
        4 => tuple_case!(c, Tuple5, _0 0, _1 1, _2 2, _3 3, _4 4),
        _ => tuple_case!(c, Tuple6, _0 0, _1 1, _2 2, _3 3, _4 4, _5 5),
    }
}

pub fn phases(s: &mut Session) {
    let d = if s.args.thorough { 5 } else { 4 };
    s.phase("vectors", 40, |c| match c.top / 10 {
        0 => vectors::<u8>(c, d),
        1 => vectors::<Elem>(c, d),
        2 => vectors::<Wide>(c, d),
        _ => vectors::<Unit>(c, d),
    });
    s.phase("boxes", 4, |c| match c.top {
        0 => boxes::<u8>(c, d + 1),
        1 => boxes::<Elem>(c, d + 1),
        2 => boxes::<Wide>(c, d + 1),
        _ => boxes::<Unit>(c, d + 1),
    });
    s.phase("strings", 8 * TEXTS.len(), |c| strings(c, d));
    s.phase("tuples", 6, tuples);
}
#[allow(unused)]
fn unused() {
    let _ = ManuallyDrop::new(0);
}
