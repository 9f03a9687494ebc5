//! C01, C02, C03: every operation sequence on `Bytes` up to a depth, from every origin, against a reference model.
use safer_ffi::bytes::{Bytes, BytesVt};
use safer_ffi::layout::{from_raw_unchecked, into_raw, ReprC};
use std::{
    cell::{Cell, RefCell},
    collections::hash_map::DefaultHasher,
    hash::{Hash, Hasher},
    io::Read,
    mem::{self, ManuallyDrop},
    ops::Bound,
    sync::Arc,
};
use vc::{catches, ensure, hash_of, track, Chooser, Res, Session};

#[global_allocator]
static A: track::TrackAlloc = track::TrackAlloc;

const INL: usize = Bytes::<'static>::MAX_INLINE_SIZE;
const GUARD: usize = 48;

// ---------------------------------------------------------------- foreign storage

#[derive(Clone, Copy, Default)]
struct Foreign {
    owner: usize,
    cap: usize,
    retains: usize,
    releases: usize,
    bad: bool,
    dead: bool,
    buf: (usize, usize),
}
thread_local!(static F: Cell<Foreign> = const { Cell::new(Foreign { owner: 0, cap: 0, retains: 0, releases: 0, bad: false, dead: false, buf: (0, 0) }) });

unsafe extern "C" fn f_retain(owner: *const (), cap: usize) {
    F.with(|f| {
        let mut x = f.get();
        x.retains += 1;
        x.bad |= owner as usize != x.owner || cap != x.cap || x.dead;
        f.set(x)
    })
}
unsafe extern "C" fn f_release(owner: *const (), cap: usize) {
    F.with(|f| {
        let mut x = f.get();
        x.releases += 1;
        x.bad |= owner as usize != x.owner || cap != x.cap || x.dead;
        if x.releases == x.retains + 1 {
            x.dead = true;
            std::slice::from_raw_parts_mut(x.buf.0 as *mut u8, x.buf.1).fill(track::POISON);
        }
        f.set(x)
    })
}
// Only `retain` does anything: a borrow that can be counted.
unsafe extern "C" fn f_retain_only(owner: *const (), cap: usize) {
    F.with(|f| {
        let mut x = f.get();
        x.retains += 1;
        x.bad |= owner as usize != x.owner || cap != x.cap;
        f.set(x)
    })
}
static VT_RR: BytesVt = BytesVt { retain: Some(f_retain), release: Some(f_release) };
static VT_RELEASE: BytesVt = BytesVt { retain: None, release: Some(f_release) };
static VT_RETAIN: BytesVt = BytesVt { retain: Some(f_retain_only), release: None };
static VT_NONE: BytesVt = BytesVt { retain: None, release: None };

// ---------------------------------------------------------------- origins

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Kind {
    Empty,
    Inline,
    Static,
    StaticArrOrStr,
    Borrowed,
    ArcSlice,
    ArcSliceShared,
    ArcT,
    ArcTShared,
    Boxed,
    Vec,
    Copied,
    ForeignRR,
    ForeignRelease,
    ForeignRetain,
    ForeignNone,
    DeBorrowed,
    DeBytes,
    DeBuf,
    DeSeq,
    #[cfg(feature = "stabby")]
    SArcSlice,
    #[cfg(feature = "stabby")]
    SArcT,
    #[cfg(feature = "stabby")]
    SBoxed,
    #[cfg(feature = "stabby")]
    SVec,
}
use Kind::*;
const KINDS: &[Kind] = &[
    Inline, Static, StaticArrOrStr, Borrowed, ArcSlice, ArcSliceShared, ArcT, ArcTShared, Boxed, Vec, Copied,
    ForeignRR, ForeignRelease, ForeignRetain, ForeignNone, DeBorrowed, DeBytes, DeBuf, DeSeq, Empty,
    #[cfg(feature = "stabby")] SArcSlice,
    #[cfg(feature = "stabby")] SArcT,
    #[cfg(feature = "stabby")] SBoxed,
    #[cfg(feature = "stabby")] SVec,
];
const LENS: &[usize] = &[0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 34, 39, 40, 41, 64, 65, 66, 70];
#[cfg(not(feature = "stabby"))]
const STABBY: bool = false;
#[cfg(feature = "stabby")]
const STABBY: bool = true;

impl Kind {
    fn borrowed(self) -> bool {
        matches!(self, Borrowed | ForeignRetain | ForeignNone | DeBorrowed)
    }
    fn foreign(self) -> bool {
        matches!(self, ForeignRR | ForeignRelease | ForeignRetain | ForeignNone)
    }
}

fn pattern(p: usize, i: usize) -> u8 {
    match p {
        0 => (i as u8).wrapping_mul(7).wrapping_add(1),
        1 => 0,
        _ => 0xFF,
    }
}

struct Owned(Box<[u8]>, usize);
impl AsRef<[u8]> for Owned {
    fn as_ref(&self) -> &[u8] {
        &self.0[GUARD / 8..][..self.1]
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Back {
    Arc,
    SArc,
    Other,
    Unknown,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Narrow {
    Never,
    Maybe,
    Yes,
}
struct H {
    b: Box<Bytes<'static>>,
    content: std::vec::Vec<u8>,
    back: Back,
    narrow: Narrow,
    statik: bool,
    /// Not a mere borrow: a non-allocating upgrade has to succeed.
    owned: bool,
    at_root: Option<usize>,
}

struct World {
    kind: Kind,
    /// Harness-owned buffer with guards; `data` is its middle.
    buf: Box<[u8]>,
    len: usize,
    arc: Option<Arc<[u8]>>,
    arct: Option<Arc<Owned>>,
    root_ptr: usize,
    hs: std::vec::Vec<H>,
}
impl World {
    fn data(&self) -> &'static [u8] {
        unsafe { mem::transmute::<&[u8], &'static [u8]>(&self.buf[GUARD..][..self.len]) }
    }
}

fn static_data(p: usize, len: usize) -> &'static [u8] {
    thread_local!(static S: RefCell<std::vec::Vec<(usize, usize, &'static [u8])>> = const { RefCell::new(std::vec::Vec::new()) });
    S.with(|s| {
        let mut s = s.borrow_mut();
        if let Some(x) = s.iter().find(|x| (x.0, x.1) == (p, len)) {
            return x.2;
        }
        let v: std::vec::Vec<u8> = (0..len).map(|i| pattern(p, i)).collect();
        let mut full = vec![0xEEu8; GUARD];
        full.extend(v);
        full.extend(vec![0xEEu8; GUARD]);
        let l: &'static [u8] = &Box::leak(full.into_boxed_slice())[GUARD..][..len];
        s.push((p, len, l));
        l
    })
}

struct BufDe(std::vec::Vec<u8>);
impl<'de> serde::Deserializer<'de> for BufDe {
    type Error = serde::de::value::Error;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
        v.visit_byte_buf(self.0)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
        bytes byte_buf option unit unit_struct newtype_struct seq tuple
        tuple_struct map struct enum identifier ignored_any
    }
}

fn construct(kind: Kind, len: usize, pat: usize) -> Result<World, String> {
    let content: std::vec::Vec<u8> = (0..len).map(|i| pattern(pat, i)).collect();
    let mut buf = vec![0xEEu8; 2 * GUARD + len].into_boxed_slice();
    buf[GUARD..][..len].copy_from_slice(&content);
    let mut w = World { kind, buf, len, arc: None, arct: None, root_ptr: 0, hs: vec![] };
    let data = w.data();
    let (mut back, mut narrow) = (Back::Other, Narrow::Never);
    F.with(|f| {
        f.set(Foreign {
            owner: 0xABC0 + len,
            cap: 0x1234_5678 ^ len,
            buf: (data.as_ptr() as usize, len),
            ..Default::default()
        })
    });
    let foreign = |vt: &'static BytesVt| unsafe {
        let f = F.with(|f| f.get());
        Bytes::from_raw_parts(data, f.owner as *const (), f.cap, vt)
    };
    let boxed = || -> Box<[u8]> { content.clone().into_boxed_slice() };
    use serde::Deserialize;
    type E = serde::de::value::Error;
    let b: Bytes<'static> = match kind {
        Empty => {
            if pat == 0 {
                Bytes::empty()
            } else {
                Bytes::default()
            }
        },
        Inline => {
            let r = Bytes::inline_slice(data);
            ensure!(r.is_some() == (len <= INL), "inline_slice of {len} bytes: {}", r.is_some());
            match r {
                Some(b) => b,
                None => Bytes::from_slice(data),
            }
        },
        Static => Bytes::from_static(static_data(pat, len)),
        StaticArrOrStr => {
            // `From<&'static [u8; N]>`, `From<&'static str>`, `From<&'static [u8]>`.
            let s = static_data(pat, len);
            if len == 33 {
                let arr: &'static [u8; 33] = s.try_into().unwrap();
                Bytes::from(arr)
            } else if let (Ok(s), true) = (std::str::from_utf8(s), len % 2 == 0) {
                Bytes::from(s)
            } else {
                Bytes::from(s)
            }
        },
        Borrowed => Bytes::from_slice(data),
        ArcSlice | ArcSliceShared => {
            let a: Arc<[u8]> = track::on(|| Arc::from(data));
            w.root_ptr = a.as_ptr() as usize;
            if kind == ArcSliceShared {
                w.arc = Some(a.clone());
            }
            back = Back::Arc;
            let b = track::on(|| Bytes::from(a));
            ensure!(b.as_ptr() as usize == w.root_ptr, "Arc<[u8]> contents were moved");
            b
        },
        ArcT | ArcTShared => {
            let a = track::on(|| {
                let mut full = vec![0xEEu8; GUARD + len];
                full[GUARD / 8..][..len].copy_from_slice(data);
                Arc::new(Owned(full.into_boxed_slice(), len))
            });
            if kind == ArcTShared {
                w.arct = Some(a.clone());
            }
            track::on(|| Bytes::from(a))
        },
        Boxed => track::on(|| Bytes::from(boxed())),
        Vec => track::on(|| {
            let mut v = std::vec::Vec::with_capacity(len + 5);
            v.extend_from_slice(data);
            Bytes::from(v)
        }),
        Copied => {
            let a0 = track::allocs();
            let b = track::on(|| Bytes::copied_from_slice(data));
            ensure!(
                (track::allocs() > a0) == (len > INL),
                "copied_from_slice of {len} bytes allocated {} times",
                track::allocs() - a0
            );
            if len > INL {
                back = if STABBY { Back::SArc } else { Back::Arc };
            }
            b
        },
        ForeignRR => foreign(&VT_RR),
        ForeignRelease => foreign(&VT_RELEASE),
        ForeignRetain => foreign(&VT_RETAIN),
        ForeignNone => foreign(&VT_NONE),
        DeBorrowed => track::on(|| Bytes::deserialize(serde::de::value::BorrowedBytesDeserializer::<E>::new(data)))
            .map_err(|e| format!("deserialisation failed: {e}"))?,
        DeBytes => {
            let mut temp = content.clone();
            let b = track::on(|| -> Result<Bytes<'static>, E> {
                let d = serde::de::value::BytesDeserializer::<E>::new(unsafe {
                    mem::transmute::<&[u8], &'static [u8]>(&temp)
                });
                Bytes::deserialize(d)
            })
            .map_err(|e| format!("deserialisation failed: {e}"))?;
            // The input was only lent for the duration of the call.
            temp.fill(track::POISON);
            drop(temp);
            back = Back::Unknown;
            b
        },
        DeBuf => track::on(|| Bytes::deserialize(BufDe(content.clone())))
            .map_err(|e| format!("deserialisation failed: {e}"))?,
        DeSeq => {
            let d = serde::de::value::SeqDeserializer::<_, E>::new(content.iter().copied());
            track::on(|| Bytes::deserialize(d)).map_err(|e| format!("deserialisation failed: {e}"))?
        },
        #[cfg(feature = "stabby")]
        SArcSlice => {
            back = Back::SArc;
            track::on(|| {
                let a: stabby::sync::ArcSlice<u8> = data.into();
                w.root_ptr = a.as_slice().as_ptr() as usize;
                Bytes::from(a)
            })
        },
        #[cfg(feature = "stabby")]
        SArcT => track::on(|| {
            let mut full = vec![0xEEu8; GUARD + len];
            full[GUARD / 8..][..len].copy_from_slice(data);
            Bytes::from(stabby::sync::Arc::new(Owned(full.into_boxed_slice(), len)))
        }),
        #[cfg(feature = "stabby")]
        SBoxed => {
            back = Back::Unknown;
            track::on(|| {
                let v: stabby::vec::Vec<u8> = content.iter().copied().collect();
                Bytes::from(stabby::boxed::BoxedSlice::from(v))
            })
        },
        #[cfg(feature = "stabby")]
        SVec => {
            back = Back::Unknown;
            track::on(|| {
                let v: stabby::vec::Vec<u8> = content.iter().copied().collect();
                Bytes::from(v)
            })
        },
    };
    if matches!(kind, DeBuf | DeSeq) {
        back = Back::Unknown;
        narrow = Narrow::Maybe;
    }
    let content = if kind == Empty { vec![] } else { content };
    let statik = !kind.borrowed() && !(kind == Inline && len > INL);
    let at_root = (w.root_ptr != 0).then_some(w.root_ptr);
    w.hs.push(H { b: Box::new(b), content, back, narrow, statik, owned: statik, at_root });
    Ok(w)
}

// ---------------------------------------------------------------- what each property looks at

#[derive(Clone, Copy, PartialEq)]
enum Prop {
    Content,
    Ownership,
    Promises,
}

/// Which memory a handle's slice lies in.
fn location(w: &World, h: &H) -> Result<&'static str, String> {
    let s = h.b.as_slice();
    let (p, n) = (s.as_ptr() as usize, s.len());
    if n == 0 {
        return Ok("empty");
    }
    let within = |start: usize, len: usize| p >= start && p + n <= start + len;
    if within(&*h.b as *const _ as usize, mem::size_of::<Bytes<'static>>()) {
        return Ok("inline");
    }
    let data = w.data();
    if within(data.as_ptr() as usize, data.len()) {
        ensure!(!h.statik || w.kind.foreign() && !w.kind.borrowed(), "a slice upgraded to 'static still points into the borrowed buffer");
        ensure!(!F.with(|f| f.get().dead), "a live handle points into storage that was released");
        return Ok("buffer");
    }
    match (track::is_live(s.as_ptr()), track::is_live(&s[n - 1])) {
        (Some(true), Some(true)) => Ok("heap"),
        (Some(false), _) | (_, Some(false)) => Err("a live handle points into freed memory".into()),
        _ => Ok("static"),
    }
}

fn check_all(w: &World, prop: Prop) -> Res {
    if let Some(e) = track::error_so_far() {
        return Err(e);
    }
    if prop == Prop::Ownership {
        let f = F.with(|f| f.get());
        ensure!(!f.bad, "retain/release called with wrong arguments or after the storage was gone");
        for (i, h) in w.hs.iter().enumerate() {
            location(w, h).map_err(|e| format!("handle {i}: {e}"))?;
        }
    }
    for (i, h) in w.hs.iter().enumerate() {
        ensure!(h.b.len() == h.content.len(), "handle {i}: len {} instead of {}", h.b.len(), h.content.len());
        ensure!(
            h.b.as_slice() == &h.content[..],
            "handle {i}: contents {:02x?} instead of {:02x?}",
            h.b.as_slice(),
            h.content
        );
    }
    Ok(())
}

fn std_hash(t: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn content_queries(w: &World) -> Res {
    use std::borrow::Borrow;
    for h in &w.hs {
        let (b, m) = (&*h.b, &h.content);
        ensure!(&**b == &m[..] && b.as_ref() == &m[..], "deref/as_ref differ from the contents");
        let bor: &[u8] = b.borrow();
        ensure!(bor == &m[..], "borrow differs from the contents");
        ensure!(b.is_empty() == m.is_empty(), "is_empty");
        ensure!(*b == &m[..], "not equal to its own contents");
        ensure!(std_hash(b) == std_hash(&&m[..]), "hash differs from that of the slice");
        let mut other = m.clone();
        if let Some(l) = other.last_mut() {
            *l ^= 1;
        } else {
            other.push(0);
        }
        ensure!(!(*b == &other[..]), "equal to different contents");
        ensure!(b.partial_cmp(&&other[..]) == m[..].partial_cmp(&other[..]), "partial_cmp with a slice");
        let ob = Bytes::from_slice(&other);
        ensure!(b.cmp(&ob) == m[..].cmp(&other[..]) && ob.cmp(b) == other[..].cmp(&m[..]), "cmp");
        ensure!(*b == *b && b.cmp(b) == std::cmp::Ordering::Equal, "not equal to itself");
        ensure!(!(*b == ob), "equal to a Bytes with different contents");
        let mut longer = m.clone();
        longer.push(0);
        let lb = Bytes::from_slice(&longer);
        ensure!(!(*b == lb) && b.cmp(&lb) == std::cmp::Ordering::Less, "not less than its extension");
    }
    Ok(())
}
fn slow_content_queries(w: &World) -> Res {
    track::off(|| {
        for h in &w.hs {
            let (b, m) = (&*h.b, &h.content);
            ensure!(format!("{b:?}") == format!("{m:?}"), "Debug output");
            let alt = format!("{b:#?}");
            let want = format!("{m:#?}").replace('\n', "\n    ");
            ensure!(alt.contains(&want), "alternate Debug output lacks the data");
            let leaked: &'static [u8] = Box::leak(m.clone().into_boxed_slice());
            serde_test::assert_ser_tokens(b, &[serde_test::Token::Bytes(leaked)]);
        }
        Ok(())
    })
}

fn promise_queries(w: &World) -> Res {
    for (i, h) in w.hs.iter().enumerate() {
        let a0 = track::allocs();
        let (c, u) = track::on(|| (h.b.clone_will_allocate(), h.b.upgrade_will_allocate()));
        ensure!(track::allocs() == a0, "a query allocated");
        // A clone, and whether it allocates.
        let a0 = track::allocs();
        let cl = track::on(|| (*h.b).clone());
        let did = track::allocs() > a0;
        ensure!(
            c == did,
            "handle {i} ({} bytes): clone_will_allocate() == {c}, yet clone() {}",
            h.content.len(),
            if did { "allocated" } else { "did not allocate" }
        );
        let a0 = track::allocs();
        let nc = track::on(|| h.b.noalloc_clone());
        ensure!(track::allocs() == a0, "noalloc_clone allocated");
        ensure!(
            nc.is_none() == c,
            "handle {i} ({} bytes): noalloc_clone() is {}, yet clone() {}",
            h.content.len(),
            if nc.is_none() { "None" } else { "Some" },
            if c { "allocates" } else { "does not allocate" }
        );
        drop(nc);
        // An upgrade of the clone when that is just as borrowed as the handle.
        if !did {
            let u2 = cl.upgrade_will_allocate();
            ensure!(u == u2 || h.content.len() <= INL, "a clone answers upgrade_will_allocate differently");
            let a0 = track::allocs();
            let up = track::on(|| cl.upgrade());
            let did = track::allocs() > a0;
            ensure!(
                u2 == did,
                "handle {i} ({} bytes): upgrade_will_allocate() == {u2}, yet upgrade() {}",
                h.content.len(),
                if did { "allocated" } else { "did not allocate" }
            );
            drop(up);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- operations

fn cuts(len: usize, rich: bool) -> std::vec::Vec<usize> {
    let mut v = if rich {
        vec![
            0, 1, 31, 32, 33,
            len.saturating_sub(34), len.saturating_sub(33), len.saturating_sub(32), len.saturating_sub(1),
            len, len + 1, usize::MAX,
        ]
    } else {
        vec![1, 33, len.saturating_sub(33), len, len + 1]
    };
    v.sort_unstable();
    v.dedup();
    v
}
type R = (Bound<usize>, Bound<usize>);
fn bounds(b: R) -> (Option<usize>, Option<usize>) {
    // What std does for slices: None when not representable.
    let s = match b.0 {
        Bound::Included(i) => Some(i),
        Bound::Excluded(i) => i.checked_add(1),
        Bound::Unbounded => Some(0),
    };
    let e = match b.1 {
        Bound::Included(i) => i.checked_add(1),
        Bound::Excluded(i) => Some(i),
        Bound::Unbounded => None,
    };
    (s, e)
}
/// The reference: `Some(range)` when valid.
fn valid(b: R, len: usize) -> Option<(usize, usize)> {
    let (s, e) = bounds(b);
    let s = s?;
    let e = if b.1 == Bound::Unbounded { len } else { e? };
    (s <= e && e <= len).then_some((s, e))
}
fn ranges(len: usize, rich: bool) -> std::vec::Vec<R> {
    use Bound::*;
    let c = cuts(len, true);
    let mut v: std::vec::Vec<R> = vec![];
    if rich {
        for &s in &c {
            for &e in &c {
                v.push((Included(s), Excluded(e)));
            }
            v.push((Included(s), Unbounded));
            v.push((Excluded(s), Unbounded));
            v.push((Unbounded, Excluded(s)));
            v.push((Unbounded, Included(s)));
            v.push((Included(1), Included(s)));
            v.push((Excluded(0), Included(s)));
        }
        v.push((Unbounded, Unbounded));
        v.push((Included(len), Included(len.wrapping_sub(1))));
    } else {
        v.push((Unbounded, Unbounded));
        v.push((Included(1), Unbounded));
        v.push((Unbounded, Excluded(len.saturating_sub(1))));
        v.push((Included(len.saturating_sub(33)), Excluded(len)));
        v.push((Included(len / 2), Excluded(len / 2 + 1)));
        v.push((Included(0), Excluded(len + 1)));
    }
    v
}

const OPS: usize = 14;

fn op(c: &mut Chooser, w: &mut World, prop: Prop, rich_left: &mut usize, max_handles: usize) -> Res {
    let i = c.choose(w.hs.len());
    let kind = c.choose(OPS);
    let len = w.hs[i].content.len();
    c.step();
    let room = w.hs.len() < max_handles;
    // Whether this operation uses the full parameter set (a bounded number of them per case does).
    let rich = |c: &mut Chooser, left: &mut usize| -> bool {
        if *left > 0 && c.choose(2) == 1 {
            *left -= 1;
            true
        } else {
            false
        }
    };
    macro_rules! narrow {
        ($h:expr, $new:expr) => {
            if $new == len {
                if $h.narrow == Narrow::Never { Narrow::Maybe } else { $h.narrow }
            } else {
                Narrow::Yes
            }
        };
    }
    match kind {
        0 => {
            if !room {
                return Ok(());
            }
            c.log(|| format!("clone #{i}"));
            let a0 = track::allocs();
            let predicted = w.hs[i].b.clone_will_allocate();
            let b = track::on(|| (*w.hs[i].b).clone());
            let did = track::allocs() > a0;
            if prop == Prop::Promises {
                ensure!(predicted == did, "clone_will_allocate() == {predicted} but clone() allocated: {did}");
            }
            let h = &w.hs[i];
            let nh = H {
                b: Box::new(b),
                content: h.content.clone(),
                back: if did {
                    if STABBY { Back::SArc } else { Back::Arc }
                } else if h.back == Back::Arc || h.back == Back::SArc {
                    h.back
                } else {
                    Back::Unknown
                },
                narrow: if did { Narrow::Never } else { h.narrow },
                statik: h.statik,
                owned: h.owned || did,
                at_root: if did { None } else { h.at_root },
            };
            w.hs.push(nh);
        },
        1 => {
            if !room {
                return Ok(());
            }
            c.log(|| format!("noalloc_clone #{i}"));
            let a0 = track::allocs();
            let predicted = w.hs[i].b.clone_will_allocate();
            let b = track::on(|| w.hs[i].b.noalloc_clone());
            if prop == Prop::Promises {
                ensure!(track::allocs() == a0, "noalloc_clone allocated");
                ensure!(b.is_none() == predicted, "noalloc_clone is_none: {}, clone_will_allocate: {predicted}", b.is_none());
            }
            if let Some(b) = b {
                let h = &w.hs[i];
                let back = if h.back == Back::Other { Back::Unknown } else { h.back };
                let nh = H { b: Box::new(b), content: h.content.clone(), back, narrow: h.narrow, statik: h.statik, owned: h.owned, at_root: h.at_root };
                w.hs.push(nh);
            }
        },
        2 | 3 => {
            let r = rich(c, rich_left);
            let rs = ranges(len, r);
            let range = rs[c.choose(rs.len())];
            let ok = valid(range, len);
            c.log(|| format!("{} #{i} {range:?}", if kind == 2 { "shrink_to" } else { "subsliced" }));
            if kind == 2 {
                let h = &mut w.hs[i];
                let got = catches(|| track::on(|| h.b.shrink_to(range)));
                ensure!(got.is_ok() == ok.is_some(), "shrink_to({range:?}) on {len} bytes: panicked: {}, in bounds: {}", got.is_err(), ok.is_some());
            } else {
                let h = w.hs.remove(i);
                let inner = *h.b;
                let got = catches(|| track::on(|| inner.subsliced(range)));
                ensure!(got.is_ok() == ok.is_some(), "subsliced({range:?}) on {len} bytes: panicked: {}, in bounds: {}", got.is_err(), ok.is_some());
                if let Ok(b) = got {
                    w.hs.insert(i, H { b: Box::new(b), ..h });
                }
            }
            if let Some((s, e)) = ok {
                let h = &mut w.hs[i];
                h.content = h.content[s..e].to_vec();
                h.narrow = narrow!(h, e - s);
                if h.narrow == Narrow::Yes {
                    h.at_root = None;
                }
            }
        },
        4 => {
            let r = rich(c, rich_left);
            let cs = cuts(len, r);
            let at = cs[c.choose(cs.len())];
            if !room && at <= len {
                return Ok(());
            }
            c.log(|| format!("split_at #{i} {at}"));
            let H { b, content, back, narrow, statik, owned, at_root } = w.hs.remove(i);
            let inner = *b;
            let a0 = track::allocs();
            let got = catches(|| track::on(|| inner.split_at(at))).map_err(|()| format!("split_at({at}) on {len} bytes panicked: {}", vc::last_panic()))?;
            ensure!(got.is_ok() == (at <= len), "split_at({at}) on {len} bytes: ok: {}", got.is_ok());
            match got {
                Err(b) => w.hs.insert(i, H { b: Box::new(b), content, back, narrow, statik, owned, at_root }),
                Ok((l, r)) => {
                    let owned = owned || track::allocs() > a0;
                    let part = |b: Bytes<'static>, content: &[u8]| {
                        let full = content.len() == len;
                        H {
                            b: Box::new(b),
                            content: content.to_vec(),
                            back: Back::Unknown,
                            narrow: if full { Narrow::Maybe } else { Narrow::Yes },
                            statik,
                            owned,
                            at_root: None,
                        }
                    };
                    // A copy is a fresh owner, but the halves are narrowed views of it all the same.
                    w.hs.insert(i, part(l, &content[..at]));
                    w.hs.insert(i + 1, part(r, &content[at..]));
                },
            }
        },
        5 => {
            c.log(|| format!("upgrade #{i}"));
            let H { b, content, back, narrow, statik: _, owned: _, at_root } = w.hs.remove(i);
            let inner = *b;
            let predicted = inner.upgrade_will_allocate();
            let a0 = track::allocs();
            let b = track::on(|| inner.upgrade());
            let did = track::allocs() > a0;
            if prop == Prop::Promises {
                ensure!(predicted == did, "upgrade_will_allocate() == {predicted} but upgrade() allocated: {did} ({len} bytes)");
            }
            let (back, narrow, at_root) = if did {
                (if STABBY { Back::SArc } else { Back::Arc }, Narrow::Never, None)
            } else {
                (if back == Back::Other { Back::Unknown } else { back }, narrow, at_root)
            };
            w.hs.insert(i, H { b: Box::new(b), content, back, narrow, statik: true, owned: true, at_root });
        },
        6 => {
            c.log(|| format!("noalloc_upgrade #{i}"));
            let H { b, content, back, narrow, statik, owned, at_root } = w.hs.remove(i);
            let inner = *b;
            let a0 = track::allocs();
            let r = track::on(|| inner.noalloc_upgrade());
            let upgraded = r.is_ok();
            let b = match r {
                Ok(b) => b,
                Err(b) => b,
            };
            if prop == Prop::Promises {
                ensure!(track::allocs() == a0, "noalloc_upgrade allocated");
                ensure!(upgraded == (owned || len <= INL), "noalloc_upgrade of {len} bytes (borrowed: {}) said ok: {upgraded}", !owned);
            }
            let back = if back == Back::Other { Back::Unknown } else { back };
            w.hs.insert(i, H { b: Box::new(b), content, back, narrow, statik: statik || upgraded, owned: owned || upgraded, at_root });
        },
        7 => {
            c.log(|| format!("drop #{i}"));
            let h = w.hs.remove(i);
            drop(h);
        },
        8 => {
            let ks = [0, 1, 32, 33, len, len + 1];
            let k = ks[c.choose(ks.len())];
            c.log(|| format!("read #{i} into {k} bytes"));
            let mut out = vec![0x5Au8; k + 4];
            let h = &mut w.hs[i];
            let n = track::on(|| h.b.read(&mut out[..k])).map_err(|e| format!("read failed: {e}"))?;
            let want = k.min(len);
            ensure!(n == want, "read into {k} bytes of {len} returned {n}");
            ensure!(out[..want] == h.content[..want] && out[want..].iter().all(|&b| b == 0x5A), "read wrote wrong bytes");
            h.content.drain(..want);
            h.narrow = narrow!(h, len - want);
            if h.narrow == Narrow::Yes {
                h.at_root = None;
            }
        },
        9 => {
            c.log(|| format!("Arc::<[u8]>::try_from #{i}"));
            let H { b, content, back, narrow, statik, owned, at_root } = w.hs.remove(i);
            let a0 = track::allocs();
            let r = track::on(|| Arc::<[u8]>::try_from(*b));
            if prop == Prop::Promises {
                ensure!(track::allocs() == a0, "the downcast allocated");
                match (back, narrow) {
                    (Back::Arc, Narrow::Never) => ensure!(r.is_ok(), "an unnarrowed slice backed by Arc<[u8]> was not downcast"),
                    (Back::Other | Back::SArc, _) | (_, Narrow::Yes) => {
                        ensure!(r.is_err(), "downcast of a slice that is narrowed ({narrow:?}) or not Arc-backed ({back:?})")
                    },
                    _ => {},
                }
            }
            match r {
                Ok(a) => {
                    ensure!(a[..] == content[..], "the downcast Arc holds {:02x?} instead of {content:02x?}", a);
                    if prop == Prop::Promises {
                        if let Some(p) = at_root {
                            ensure!(a.as_ptr() as usize == p, "the downcast gave another allocation");
                        }
                        if let Some(mine) = &w.arc {
                            if Arc::ptr_eq(mine, &a) {
                                ensure!(Arc::strong_count(&a) >= 2, "strong count of a shared Arc is {}", Arc::strong_count(&a));
                            }
                        }
                    }
                    let p = a.as_ptr() as usize;
                    let b = track::on(|| Bytes::from(a));
                    w.hs.insert(i, H { b: Box::new(b), content, back: Back::Arc, narrow: Narrow::Never, statik, owned, at_root: Some(p) });
                },
                Err(b) => w.hs.insert(i, H { b: Box::new(b), content, back, narrow, statik, owned, at_root }),
            }
        },
        10 => {
            #[cfg(feature = "stabby")]
            {
                c.log(|| format!("ArcSlice::<u8>::try_from #{i}"));
                let H { b, content, back, narrow, statik, owned, at_root } = w.hs.remove(i);
                let a0 = track::allocs();
                let r = track::on(|| stabby::sync::ArcSlice::<u8>::try_from(*b));
                if prop == Prop::Promises {
                    ensure!(track::allocs() == a0, "the downcast allocated");
                    match (back, narrow) {
                        (Back::SArc, Narrow::Never) => ensure!(r.is_ok(), "an unnarrowed slice backed by ArcSlice<u8> was not downcast"),
                        (Back::Other | Back::Arc, _) | (_, Narrow::Yes) => {
                            ensure!(r.is_err(), "downcast to ArcSlice of a slice that is narrowed ({narrow:?}) or not ArcSlice-backed ({back:?})")
                        },
                        _ => {},
                    }
                }
                match r {
                    Ok(a) => {
                        ensure!(a.as_slice() == &content[..], "the downcast ArcSlice holds {:02x?} instead of {content:02x?}", a.as_slice());
                        let p = a.as_slice().as_ptr() as usize;
                        if prop == Prop::Promises {
                            ensure!(at_root.map_or(true, |r| r == p), "the downcast gave another allocation");
                        }
                        let b = track::on(|| Bytes::from(a));
                        w.hs.insert(i, H { b: Box::new(b), content, back: Back::SArc, narrow: Narrow::Never, statik, owned, at_root: Some(p) });
                    },
                    Err(b) => w.hs.insert(i, H { b: Box::new(b), content, back, narrow, statik, owned, at_root }),
                }
            }
        },
        11 => {
            // Move the value around in memory, and swap it with another handle.
            c.log(|| format!("move #{i}"));
            let h = w.hs.remove(i);
            let b = *h.b;
            let moved = Box::new([b, Bytes::from_static(b"")]);
            let [b, e] = *moved;
            drop(e);
            w.hs.insert(0, H { b: Box::new(b), ..h });
        },
        12 => {
            // Through C: by value and as an optional.
            c.log(|| format!("through C #{i}"));
            let h = w.hs.remove(i);
            let raw = unsafe { into_raw(*h.b) };
            ensure!(<Bytes<'static> as ReprC>::is_valid(&raw), "a live Bytes is not a valid C value");
            let b: Bytes<'static> = unsafe { from_raw_unchecked(raw) };
            let raw = unsafe { into_raw(Some(b)) };
            ensure!(<Option<Bytes<'static>> as ReprC>::is_valid(&raw), "a live optional Bytes is not a valid C value");
            let b: Option<Bytes<'static>> = unsafe { from_raw_unchecked(raw) };
            let Some(b) = b else { return Err("Some(Bytes) became None through C".into()) };
            w.hs.insert(i, H { b: Box::new(b), ..h });
        },
        _ => {
            // Assignment over another handle (drops the overwritten one).
            if w.hs.len() >= 2 {
                c.log(|| format!("assign #{i} over the next"));
                let h = w.hs.remove(i);
                let j = i % w.hs.len();
                let H { b, content, back, narrow, statik, owned, at_root } = h;
                let dst = &mut w.hs[j];
                track::on(|| *dst.b = *b);
                *dst = H { b: mem::replace(&mut dst.b, Box::new(Bytes::empty())), content, back, narrow, statik, owned, at_root };
            }
        },
    }
    Ok(())
}

fn finish(c: &mut Chooser, mut w: World, prop: Prop) -> Res {
    // Handles proven 'static outlive the borrowed buffer.
    let f = F.with(|f| f.get());
    if w.kind.borrowed() || w.kind == Inline {
        let (keep, gone): (std::vec::Vec<H>, std::vec::Vec<H>) = w.hs.drain(..).partition(|h| h.statik);
        drop(gone);
        w.hs = keep;
        w.buf.fill(track::POISON);
        check_all(&w, prop).map_err(|e| format!("after the borrow ended: {e}"))?;
    } else {
        ensure!(w.buf[..GUARD].iter().chain(&w.buf[GUARD + w.len..]).all(|&b| b == 0xEE), "guard bytes overwritten");
    }
    let mut final_hash = (w.kind, f.retains, f.releases, track::live_count()).hash_with();
    while !w.hs.is_empty() {
        let h = w.hs.remove(0);
        final_hash ^= hash_of(&h.content);
        drop(h);
        check_all(&w, prop)?;
    }
    c.outcome(final_hash);
    if prop == Prop::Ownership {
        let f = F.with(|f| f.get());
        ensure!(!f.bad, "retain/release called with wrong arguments or after the storage was gone");
        match w.kind {
            ForeignRR | ForeignRelease => {
                ensure!(f.releases == f.retains + 1, "{} retains but {} releases", f.retains, f.releases)
            },
            _ => ensure!(f.releases == 0, "release called for storage without one"),
        }
        if let Some(a) = w.arc.take() {
            ensure!(Arc::strong_count(&a) == 1, "strong count left at {}", Arc::strong_count(&a));
            ensure!(Arc::weak_count(&a) == 0, "weak count left at {}", Arc::weak_count(&a));
        }
        if let Some(a) = w.arct.take() {
            ensure!(Arc::strong_count(&a) == 1, "strong count left at {}", Arc::strong_count(&a));
        }
    }
    drop(w);
    match prop {
        Prop::Ownership => track::end(),
        _ => Ok(()),
    }
}
trait HashWith: Hash {
    fn hash_with(&self) -> u64 {
        hash_of(self)
    }
}
impl<T: Hash> HashWith for T {}

fn tops(kinds: &[Kind], lens: &[usize]) -> std::vec::Vec<(Kind, usize, usize)> {
    let mut v = vec![];
    for &len in lens {
        for &k in kinds {
            for pat in 0..3 {
                // Other patterns matter where the bytes may be (mis)read as fields.
                if pat > 0 && (len > INL || !matches!(k, Inline | Borrowed | Static | Copied | Empty)) {
                    continue;
                }
                if k == Empty && (len > 0 || pat > 1) {
                    continue;
                }
                v.push((k, len, pat));
            }
        }
    }
    v
}

fn run(c: &mut Chooser, t: (Kind, usize, usize), depth: usize, rich: usize, max_handles: usize, prop: Prop) -> Res {
    let (kind, len, pat) = t;
    let mut w = ManuallyDrop::new(construct(kind, len, pat)?);
    c.log(|| format!("origin {kind:?}, {len} bytes, pattern {pat}"));
    check_all(&w, prop)?;
    let mut left = rich;
    for _ in 0..depth {
        if w.hs.is_empty() {
            break;
        }
        op(c, &mut w, prop, &mut left, max_handles)?;
        check_all(&w, prop)?;
        let h = hash_of(&(
            (kind, len, pat, left),
            w.hs.iter().map(|h| (&h.content, h.back, h.narrow, h.statik)).collect::<std::vec::Vec<_>>(),
        ));
        c.state(h);
    }
    match prop {
        Prop::Content => {
            content_queries(&w)?;
            if depth <= 1 && rich == 0 {
                slow_content_queries(&w)?;
            }
        },
        Prop::Promises => promise_queries(&w)?,
        _ => {},
    }
    finish(c, ManuallyDrop::into_inner(w), prop)
}

fn main() {
    let mut s = Session::new();
    let prop = match &*s.args.property {
        "C01" => Prop::Content,
        "C02" => Prop::Ownership,
        _ => Prop::Promises,
    };
    let all = tops(KINDS, LENS);
    let few = tops(KINDS, &[0, 8, 32, 33, 70]);
    let thorough = s.args.thorough;
    s.phase("len0", all.len(), |c| run(c, all[c.top], 0, 0, 3, prop));
    s.phase("depth1", all.len(), |c| run(c, all[c.top], 1, 0, 3, prop));
    s.phase("depth1-rich", all.len(), |c| run(c, all[c.top], 1, 1, 3, prop));
    let mid = if thorough { all.clone() } else { tops(KINDS, &[0, 8, 32, 33, 40, 66]) };
    s.phase("depth2", all.len(), |c| run(c, all[c.top], 2, 0, 3, prop));
    s.phase("depth2-rich", mid.len(), |c| run(c, mid[c.top], 2, if thorough { 2 } else { 1 }, 3, prop));
    s.phase("depth3", few.len(), |c| run(c, few[c.top], 3, 0, 3, prop));
    if thorough {
        s.phase("depth3-rich", few.len(), |c| run(c, few[c.top], 3, 1, 3, prop));
        s.phase("depth4", few.len(), |c| run(c, few[c.top], 4, 0, 3, prop));
    }
    s.finish()
}
