//! Optional values: the niche, and owners behind it; tagged optionals.
use crate::zoo::*;
use crate::{bytes_of, layout, masked};
use safer_ffi::boxed::Box_;
use safer_ffi::closure::*;
use safer_ffi::layout::{from_raw, into_raw, CLayoutOf, ReprC};
use safer_ffi::option::TaggedOption;
use safer_ffi::prelude::*;
use safer_ffi::slice;
use std::mem::{align_of, forget, size_of, MaybeUninit};
use vc::{ensure, hash_of, track, Chooser, Res, Session};

/// Absence and presence of a T, for every pattern.
pub fn niche<T: Zoo>(c: &mut Chooser) -> Res
where
    Option<T>: ReprC,
{
    let name = std::any::type_name::<T>();
    ensure!(size_of::<Option<T>>() == size_of::<T>() && align_of::<Option<T>>() == align_of::<T>(), "Option<{name}> has another size or alignment");
    ensure!(
        size_of::<CLayoutOf<Option<T>>>() == size_of::<T>() && align_of::<CLayoutOf<Option<T>>>() == align_of::<T>(),
        "Option<{name}>'s C layout has another size or alignment"
    );
    // Which word is null when absent: the only one that all absent patterns share.
    let all = T::all();
    let at = (0..size_of::<T>() / 8)
        .find(|w| all.iter().all(|p| p.niche == (p.bytes[w * 8..w * 8 + 8] == [0; 8])))
        .ok_or("explorer: no niche word")?;
    let none = MaybeUninit::new(unsafe { into_raw(None::<T>) });
    let word = unsafe { none.as_ptr().cast::<usize>().add(at).read() };
    ensure!(word == 0, "an absent {name} is written as {word:#x}");
    for p in all {
        c.step();
        c.state(hash_of(&(name, &p.bytes)));
        let hex = || p.bytes.iter().map(|b| format!("{b:02x}")).collect::<Vec<_>>().join(" ");
        let l = layout::<Option<T>>(&p.bytes);
        let valid = <Option<T>>::is_valid(&l);
        ensure!(valid == (p.legal || p.niche), "Option<{name}>: is_valid says {valid} of {}", hex());
        match unsafe { from_raw::<Option<T>>(l) } {
            None => ensure!(!(p.legal || p.niche), "Option<{name}>: {} is refused", hex()),
            Some(None) => {
                c.outcome(hash_of(&(name, 0)));
                ensure!(p.niche, "Option<{name}>: {} reads as absent", hex());
            },
            Some(Some(v)) => {
                c.outcome(hash_of(&(name, 1)));
                if !p.legal {
                    forget(v);
                    return Err(format!("Option<{name}>: {} reads as present", hex()));
                }
                let bare = bytes_of::<T>(unsafe { into_raw(v) });
                ensure!(bare == masked::<T>(&p.bytes), "Option<{name}>: {} holds another value", hex());
                let v = unsafe { from_raw::<T>(layout::<T>(&p.bytes)) };
                let l = unsafe { into_raw(v) };
                let some: Vec<u8> = {
                    let l = MaybeUninit::new(l);
                    let b = l.as_ptr().cast::<u8>();
                    T::mask().iter().enumerate().map(|(i, &m)| if m { unsafe { *b.add(i) } } else { 0 }).collect()
                };
                ensure!(some == bare, "Option<{name}>: a present value differs from the bare one at {}", hex());
            },
        }
    }
    Ok(())
}

trait Owner: ReprC + Sized
where
    Option<Self>: ReprC,
{
    fn make(n: u32) -> Self;
    fn number(&mut self) -> u32;
}
macro_rules! owners {( $( $T:ty, |$n:ident| $make:expr, |$s:ident| $num:expr; )* ) => ( $(
    impl Owner for $T {
        fn make($n: u32) -> Self { $make }
        fn number(&mut self) -> u32 { let $s = self; $num }
    }
)*)}
#[derive(Clone)]
struct Obj(Box<u32>);
impl Tr2 for Obj {
    fn a(&self, x: u8) -> u8 {
        *self.0 as u8 + x
    }
    fn b(&mut self) {}
}
owners! {
    Box_<u32>, |n| Box::new(n).into(), |s| **s;
    repr_c::Vec<u32>, |n| vec![n, 1].into(), |s| s[0];
    repr_c::String, |n| n.to_string().into(), |s| s.parse().unwrap();
    slice::slice_boxed<u32>, |n| vec![n, 2].into_boxed_slice().into(), |s| s[0];
    str::Box, |n| n.to_string().into_boxed_str().into(), |s| s.parse().unwrap();
    char_p::Box, |n| n.to_string().try_into().unwrap(), |s| s.to_str().parse().unwrap();
    BoxDynFnMut0<u32>, |n| { let b = Box::new(n); Box::new(move || *b).into() }, |s| s.call();
    VirtualPtr<dyn 'static + Tr2>, |n| Box::new(Obj(Box::new(n))).into(), |s| s.a(0) as u32;
    safer_ffi::bytes::Bytes<'static>, |n| { let mut v = vec![0u8; 64]; v[7] = n as u8; std::sync::Arc::<[u8]>::from(v).into() }, |s| s[7] as u32;
}

/// A slot that holds an optional owner, moved about in every way.
fn owners<T: Owner>(c: &mut Chooser, depth: usize) -> Res
where
    Option<T>: ReprC,
{
    let name = std::any::type_name::<T>();
    track::on(|| {
        let mut model: Option<u32> = None;
        let mut slot: Option<T> = None;
        for i in 0..depth {
            c.step();
            match c.choose(5) {
                0 => {
                    model = Some(10 + i as u32);
                    slot = Some(T::make(10 + i as u32));
                    c.log(|| format!("present {}", 10 + i));
                },
                1 => {
                    model = None;
                    slot = None;
                    c.log(|| "absent".into());
                },
                2 => {
                    // Through C.
                    c.log(|| "to C and back".into());
                    slot = unsafe { from_raw::<Option<T>>(into_raw(slot)) }.ok_or_else(|| format!("Option<{name}>: refused on its way back"))?;
                },
                3 => {
                    // A bare value read as an optional one, or an optional one as bare.
                    c.log(|| "bare to C, optional back".into());
                    if let Some(v) = slot.take() {
                        let l = unsafe { into_raw(v) };
                        let l = MaybeUninit::new(l);
                        let l = unsafe { l.as_ptr().cast::<CLayoutOf<Option<T>>>().read() };
                        slot = unsafe { from_raw::<Option<T>>(l) }.ok_or_else(|| format!("Option<{name}>: a bare value is refused"))?;
                    }
                },
                _ => {
                    c.log(|| "optional to C, bare back".into());
                    if model.is_some() {
                        let l = MaybeUninit::new(unsafe { into_raw(slot.take()) });
                        let l = unsafe { l.as_ptr().cast::<CLayoutOf<T>>().read() };
                        // (What was written when the value was taken is not looked at.)
                        slot = Some(unsafe { from_raw::<T>(l) }.ok_or_else(|| format!("{name}: the payload of an optional is refused"))?);
                    }
                },
            }
            let seen = slot.as_mut().map(|v| v.number());
            ensure!(seen == model, "Option<{name}> holds {seen:?} instead of {model:?}");
            c.state(hash_of(&(name, model)));
        }
        c.outcome(hash_of(&(name, model)));
        Ok(())
    })?;
    track::end()
}

fn tagged(c: &mut Chooser, depth: usize) -> Res {
    type P = repr_c::Vec<u8>;
    let make = |n: u8| -> P { vec![n, n + 1].into() };
    track::on(|| {
        let mut model: Option<u8> = None;
        let mut t: TaggedOption<P> = TaggedOption::None;
        for i in 0..depth as u8 {
            c.step();
            let op = c.choose(15);
            c.log(|| format!("op {op}"));
            let fresh = 20 + i;
            match op {
                0 => {
                    t = TaggedOption::from(Some(make(fresh)));
                    model = Some(fresh);
                },
                1 => {
                    t = TaggedOption::from(None::<P>);
                    model = None;
                },
                2 => {
                    t = make(fresh).into();
                    model = Some(fresh);
                },
                3 => {
                    let o: Option<P> = t.into();
                    ensure!(o.as_ref().map(|v| v[0]) == model, "Option::from gives {o:?} instead of {model:?}");
                    t = o.into();
                },
                4 => {
                    let o = t.into_rust();
                    ensure!(o.as_ref().map(|v| v[0]) == model, "into_rust gives {o:?} instead of {model:?}");
                    t = o.into();
                },
                5 => {
                    let r = t.as_mut();
                    ensure!(r.is_some() == model.is_some(), "as_mut gives {r:?} instead of {model:?}");
                    if let Some(r) = r {
                        r.with_rust_mut(|v| {
                            v[0] = 40 + i;
                            v.push(9);
                        });
                        model = Some(40 + i);
                    }
                },
                6 => {
                    let old = t.take();
                    ensure!(old.as_ref().map(|v| v[0]) == model, "take gives {old:?} instead of {model:?}");
                    ensure!(t.as_ref().is_none(), "take leaves {t:?}");
                    if c.choose(2) == 0 {
                        t = old
                    } else {
                        model = None
                    }
                },
                7 => {
                    let (mut d, mut f) = (0, 0);
                    let got = t.map_or_else(|| { d += 1; None }, |v| { f += 1; Some(v) });
                    ensure!((d, f) == if model.is_some() { (0, 1) } else { (1, 0) }, "map_or_else calls the default {d} times, the function {f} times");
                    ensure!(got.as_ref().map(|v| v[0]) == model, "map_or_else gives {got:?} instead of {model:?}");
                    t = got.into();
                },
                8 => {
                    let mut d = 0;
                    let v = t.unwrap_or_else(|| { d += 1; make(fresh) });
                    ensure!(d == model.is_none() as u32, "unwrap_or_else calls the default {d} times");
                    model = model.or(Some(fresh));
                    t = TaggedOption::Some(v);
                },
                9 => {
                    let keep = c.choose(2) == 0;
                    let mut f = 0;
                    let u: TaggedOption<Box<P>> = t.and_then(|v| { f += 1; if keep { TaggedOption::Some(Box::new(v)) } else { TaggedOption::None } });
                    ensure!(f == model.is_some() as u32, "and_then calls the function {f} times");
                    model = model.filter(|_| keep);
                    t = u.into_rust().map(|b| *b).into();
                },
                10 => {
                    let u = t.clone();
                    ensure!(u.as_ref().map(|v| v[0]) == model, "clone gives {u:?} instead of {model:?}");
                    if c.choose(2) == 0 { t = u } else { drop(u) }
                },
                11 => {
                    let l = MaybeUninit::new(unsafe { into_raw(t) });
                    let p = l.as_ptr().cast::<u8>();
                    let tag = unsafe { *p };
                    ensure!(tag == model.is_some() as u8, "the tag is {tag} for {model:?}");
                    if model.is_some() {
                        let [ptr, len] = unsafe { [p.add(8).cast::<usize>().read(), p.add(16).cast::<usize>().read()] };
                        ensure!(len >= 2 && track::is_live(ptr as *const u8) == Some(true), "the payload is not behind the tag");
                    }
                    t = unsafe { from_raw::<TaggedOption<P>>(l.assume_init()) }.ok_or("refused on its way back")?;
                },
                12 => {
                    // C writes the value.
                    let v = make(fresh);
                    let mut l = MaybeUninit::<CLayoutOf<TaggedOption<P>>>::zeroed();
                    unsafe {
                        l.as_mut_ptr().cast::<u8>().write(1);
                        l.as_mut_ptr().cast::<u8>().add(8).cast::<CLayoutOf<P>>().write(into_raw(v));
                        t = from_raw::<TaggedOption<P>>(l.assume_init()).ok_or("a tagged value made by C is refused")?;
                    }
                    model = Some(fresh);
                },
                13 => {
                    let mut l = MaybeUninit::<CLayoutOf<TaggedOption<P>>>::uninit();
                    unsafe {
                        l.as_mut_ptr().cast::<u8>().write_bytes(0xa5, size_of::<TaggedOption<P>>());
                        l.as_mut_ptr().cast::<u8>().write(0);
                        t = from_raw::<TaggedOption<P>>(l.assume_init()).ok_or("an absent value with garbage behind the tag is refused")?;
                    }
                    model = None;
                },
                _ => {
                    t = TaggedOption::None;
                    model = None;
                },
            }
            let seen = t.as_ref().map(|v| v[0]);
            ensure!(seen == model, "the tagged optional holds {seen:?} instead of {model:?}");
            ensure!(matches!(t, TaggedOption::Some(_)) == model.is_some(), "the variant is wrong for {model:?}");
            c.state(hash_of(&model));
        }
        c.outcome(hash_of(&model));
        Ok(())
    })?;
    track::end()
}

/// Comparisons agree with those of the standard type.
fn compare(c: &mut Chooser) -> Res {
    let v = [None, Some(0u8), Some(1), Some(255)];
    let (a, b) = (v[c.choose(4)], v[c.choose(4)]);
    let (x, y) = (<TaggedOption<u8>>::from(a), <TaggedOption<u8>>::from(b));
    c.log(|| format!("{a:?} and {b:?}"));
    c.step();
    ensure!((x == y) == (a == b) && x.cmp(&y) == a.cmp(&b) && x.partial_cmp(&y) == a.partial_cmp(&b), "{x:?} and {y:?} compare unlike {a:?} and {b:?}");
    ensure!((hash_of(&x) == hash_of(&y)) == (a == b), "the hashes of {x:?} and {y:?}");
    c.outcome(hash_of(&(a, b)));
    Ok(())
}

pub fn phases(s: &mut Session) {
    let d = if s.args.thorough { 7 } else { 5 };
    let f: Vec<fn(&mut Chooser, usize) -> Res> = vec![
        owners::<Box_<u32>>, owners::<repr_c::Vec<u32>>, owners::<repr_c::String>, owners::<slice::slice_boxed<u32>>, owners::<str::Box>,
        owners::<char_p::Box>, owners::<BoxDynFnMut0<u32>>, owners::<VirtualPtr<dyn 'static + Tr2>>, owners::<safer_ffi::bytes::Bytes<'static>>,
    ];
    s.phase("owners", f.len(), |c| f[c.top](c, d));
    let d = if s.args.thorough { 6 } else { 4 };
    s.phase("tagged", 1, |c| tagged(c, d));
    s.phase("compare", 1, compare);
}
