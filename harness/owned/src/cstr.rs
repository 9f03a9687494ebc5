use safer_ffi::layout::{from_raw, from_raw_unchecked, into_raw, CLayoutOf};
use safer_ffi::prelude::*;
use std::ffi::{CStr, CString};
use vc::{catches, ensure, hash_of, track, Chooser, Res, Session};

/// Everything a C-string view says about its text; `at`: where it must point to.
fn check_ref(r: char_p::Ref<'_>, text: &str, at: Option<*const u8>) -> Res {
    let n = text.len();
    let p = r.to_bytes().as_ptr();
    ensure!(at.map_or(true, |a| a == p), "the view points elsewhere");
    let len = unsafe { libc::strlen(p.cast()) };
    ensure!(len == n, "C sees {len} bytes instead of {n}");
    ensure!(r.to_bytes() == text.as_bytes(), "to_bytes gives {:?} instead of {text:?}", r.to_bytes());
    ensure!(r.bytes().map(|b| b.get()).eq(text.bytes()), "bytes gives other bytes");
    ensure!(r.to_nonzero_bytes().iter().map(|b| b.get()).eq(text.bytes()), "to_nonzero_bytes gives other bytes");
    let z = r.to_bytes_with_null();
    ensure!(z.len() == n + 1 && z[..n] == *text.as_bytes() && z[n] == 0, "to_bytes_with_null gives {z:?}");
    ensure!(r.to_str() == text, "to_str gives {:?} instead of {text:?}", r.to_str());
    let z = r.to_str_with_null();
    ensure!(z.len() == n + 1 && z.as_bytes()[n] == 0 && z[..n] == *text, "to_str_with_null gives {z:?}");
    track::off(|| {
        ensure!(r.to_string() == text && format!("{r}") == text && format!("{r:?}") == format!("{text:?}"), "to_string, Display or Debug");
        Ok(())
    })?;
    // The C representation.
    let l = unsafe { into_raw(r) };
    ensure!(l as *const u8 == p, "the raw view is another pointer");
    let b: char_p::Ref<'_> = unsafe { from_raw(l) }.ok_or("a valid view was refused")?;
    ensure!(b.to_bytes().as_ptr() == p && b == r, "the view changed in its raw form");
    let o: Option<char_p::Ref<'_>> = unsafe { from_raw(into_raw(Some(r))) }.ok_or("a valid optional view was refused")?;
    ensure!(o.map(|o| o.to_bytes().as_ptr()) == Some(p), "the optional view changed in its raw form");
    let raw: char_p::Raw = r.into();
    let rr = unsafe { raw.as_ref() };
    ensure!(rr.to_bytes().as_ptr() == p && rr.to_bytes().len() == n, "char_p::Raw shows another text");
    let l = unsafe { into_raw(raw) };
    ensure!(l as *const u8 == p, "the raw char_p::Raw is another pointer");
    Ok(())
}

/// Every text over the alphabet of up to that many letters.
fn texts<T: Clone>(alphabet: &[T], max: usize) -> Vec<Vec<T>> {
    let mut out = vec![vec![]];
    let mut from = 0;
    for _ in 0..max {
        let to = out.len();
        for i in from..to {
            for a in alphabet {
                let mut t = out[i].clone();
                t.push(a.clone());
                out.push(t);
            }
        }
        from = to;
    }
    out
}

/// What an owned C string must do, whatever happens to it.
fn owned(c: &mut Chooser, first: char_p::Box, text: &str, depth: usize) -> Res {
    enum F {
        B(char_p::Box),
        L(CLayoutOf<char_p::Box>),
        O(Option<char_p::Box>),
    }
    let mut v = vec![F::B(first)];
    let addr = |f: &F| match f {
        F::B(b) => b.to_bytes().as_ptr(),
        F::L(l) => *l as *const u8,
        F::O(o) => o.as_ref().unwrap().to_bytes().as_ptr(),
    };
    for step in 0..=depth {
        for f in &v {
            match f {
                F::B(b) => {
                    check_ref(b.as_ref(), text, Some(addr(f)))?;
                    ensure!(b.to_bytes() == text.as_bytes() && b.to_str() == text && b.bytes().count() == text.len(), "char_p::Box: contents");
                    ensure!(b.to_bytes_with_null().len() == text.len() + 1 && b.to_str_with_null().as_bytes()[text.len()] == 0, "char_p::Box: terminator");
                    ensure!(b.to_nonzero_bytes().len() == text.len(), "char_p::Box: to_nonzero_bytes");
                    track::off(|| {
                        ensure!(format!("{b}") == text && format!("{b:?}") == format!("{text:?}"), "char_p::Box: Display or Debug");
                        let o = char_p::new("a");
                        ensure!((*b == o) == (text == "a") && (o == *b) == (text == "a"), "char_p::Box: PartialEq");
                        Ok(())
                    })?;
                    ensure!(*b == *b, "char_p::Box: not equal to itself");
                },
                F::L(l) => {
                    let n = unsafe { libc::strlen(*l as *const _) };
                    ensure!(n == text.len(), "C sees {n} bytes instead of {}", text.len());
                },
                F::O(_) => {},
            }
        }
        c.state(hash_of(&(text, v.iter().map(|f| std::mem::discriminant(f)).collect::<Vec<_>>())));
        if v.is_empty() || step == depth {
            break;
        }
        c.step();
        let i = c.choose(v.len());
        let f = v.remove(i);
        let at = addr(&f);
        let op = c.choose(match f {
            F::B(_) => 8,
            F::L(_) => 2,
            F::O(_) => 3,
        });
        c.log(|| format!("op {op} on #{i} {}", match f { F::B(_) => "char_p::Box", F::L(_) => "raw", F::O(_) => "Option" }));
        let before = track::allocs();
        let kept = !matches!((&f, op), (F::B(_), 2 | 3 | 7) | (F::O(_), 2));
        match (f, op) {
            (F::B(b), op @ (0 | 1)) => {
                let n = track::on(|| if op == 0 { b.clone() } else { b.to_owned() });
                ensure!(text.is_empty() || n.to_bytes().as_ptr() != at, "the clone shares the memory");
                ensure!(!text.is_empty() || track::allocs() == before, "cloning an empty one allocates");
                check_ref(n.as_ref(), text, None)?;
                ensure!(n == b, "a clone differs from its original");
                v.insert(i, F::B(b));
                v.push(F::B(n));
            },
            (F::B(b), 2) => {
                let r = track::on(|| b.into_vec());
                ensure!(r == text.as_bytes(), "into_vec gives {r:?} instead of {text:?}");
                ensure!(track::allocs() == before, "into_vec allocates");
                ensure!(text.is_empty() || r.as_ptr() == at, "into_vec moved the text");
                track::on(|| drop(r));
            },
            (F::B(b), 3) => {
                let s = track::on(|| b.into_string());
                ensure!(s == text, "into_string gives {s:?} instead of {text:?}");
                ensure!(track::allocs() == before, "into_string allocates");
                v.insert(i, F::B(track::on(|| char_p::Box::try_from(s)).map_err(|e| format!("{e:?} refused"))?));
            },
            (F::B(b), 4) => v.insert(i, F::L(unsafe { into_raw(b) })),
            (F::B(b), 5) => v.insert(i, F::O(Some(b))),
            (F::B(b), 6) => {
                let n = track::on(|| b.as_ref().to_owned());
                check_ref(n.as_ref(), text, None)?;
                v.insert(i, F::B(b));
                track::on(|| drop(n));
            },
            (F::B(b), _) => track::on(|| drop(b)),
            (F::L(l), 0) => v.insert(i, F::B(unsafe { from_raw(l) }.ok_or("a valid C string was refused")?)),
            (F::L(l), _) => {
                let o: Option<char_p::Box> = unsafe { from_raw(l) }.ok_or("a valid C string was refused")?;
                ensure!(o.is_some(), "a C string reads as None");
                v.insert(i, F::O(o))
            },
            (F::O(o), 0) => v.insert(i, F::B(o.unwrap())),
            (F::O(o), 1) => v.insert(i, F::L(unsafe { into_raw(o) })),
            (F::O(o), _) => track::on(|| drop(o)),
        }
        ensure!(!kept || addr(&v[i]) == at, "the text moved");
    }
    for f in v {
        track::on(|| match f {
            F::B(b) => drop(b),
            F::L(l) => drop(unsafe { from_raw_unchecked::<char_p::Box>(l) }),
            F::O(o) => drop(o),
        });
    }
    Ok(())
}

/// Every text (inner NULs included), every conversion from Rust strings.
fn from_text(c: &mut Chooser, text: &str, depth: usize) -> Res {
    let bytes = text.as_bytes();
    let first_nul = bytes.iter().position(|&b| b == 0);
    // What is before the terminator, if that is the only NUL.
    let content = match first_nul {
        None => Some(text),
        Some(n) if n + 1 == bytes.len() => Some(&text[..n]),
        Some(_) => None,
    };
    match c.choose(9) {
        0 => {
            c.log(|| format!("char_p::Ref::try_from({text:?})"));
            let before = track::allocs();
            let r = track::on(|| char_p::Ref::try_from(text));
            ensure!(track::allocs() == before, "a view allocates");
            // A view cannot add a terminator.
            let ok = text.is_empty() || (first_nul.is_some() && content.is_some());
            ensure!(r.is_ok() == ok, "{text:?} was {}", if r.is_ok() { "accepted" } else { "refused" });
            match r {
                Ok(r) => {
                    let content = content.unwrap();
                    check_ref(r, content, (!text.is_empty()).then(|| text.as_ptr()))?;
                    let o = track::on(|| r.to_owned());
                    owned(c, o, content, depth)?;
                },
                Err(e) => ensure!(format!("{e}").contains("Null byte"), "the error says {e}"),
            }
        },
        k @ 1..=4 => {
            let spare = [0, 1, 2, 9][k - 1];
            c.log(|| format!("char_p::Box::try_from({text:?} with {spare} bytes to spare)"));
            let s = track::on(|| {
                let mut s = String::with_capacity(text.len() + spare);
                s.push_str(text);
                s
            });
            let (p, cap) = (s.as_ptr(), s.capacity());
            let before = track::allocs();
            let r = track::on(|| char_p::Box::try_from(s));
            ensure!(r.is_ok() == content.is_some(), "{text:?} was {}", if r.is_ok() { "accepted" } else { "refused" });
            match r {
                Ok(b) => {
                    let content = content.unwrap();
                    if content.is_empty() {
                        ensure!(track::allocs() == before, "an empty C string allocates");
                    }
                    check_ref(b.as_ref(), content, None)?;
                    owned(c, b, content, depth)?;
                },
                Err(e) => {
                    ensure!(e.0 == text && e.0.as_ptr() == p && e.0.capacity() == cap, "the string came back as {:?}", e.0);
                    ensure!(track::allocs() == before, "refusing a string allocates");
                    track::on(|| drop(e));
                },
            }
        },
        k => {
            c.log(|| format!("char_p::new({text:?}) from {}", ["&str", "String", "repr_c::String", "str::Ref"][k - 5]));
            let before = track::allocs();
            let r = track::on(|| {
                catches(|| match k {
                    5 => char_p::new(text),
                    6 => char_p::new(text.to_string()),
                    7 => char_p::new(repr_c::String::from(text)),
                    _ => char_p::new(str::Ref::from(text)),
                })
            });
            ensure!(r.is_ok() == content.is_some(), "{text:?} was {}", if r.is_ok() { "accepted" } else { "refused" });
            if let Ok(b) = r {
                let content = content.unwrap();
                if text.is_empty() {
                    ensure!(track::allocs() == before, "an empty C string allocates");
                }
                owned(c, b, content, depth)?;
            }
        },
    }
    track::end()
}

/// Every byte string without NUL, valid UTF-8 or not, as a CString and CStr.
fn from_c(c: &mut Chooser, bytes: &[u8], depth: usize) -> Res {
    let text = std::str::from_utf8(bytes).ok();
    let k = c.choose(4);
    c.log(|| format!("{} of {bytes:?}", ["char_p::Ref::from(&CStr)", "char_p::new(&CStr)", "char_p::new(CString)", "char_p::Box::from(CString)"][k]));
    let s = track::on(|| CString::new(bytes).unwrap());
    let p = s.as_ptr() as *const u8;
    match k {
        0 => {
            let z: &CStr = &s;
            let before = track::allocs();
            let r = track::on(|| catches(|| char_p::Ref::from(z)));
            ensure!(r.is_ok() == text.is_some(), "{bytes:?} was {}", if r.is_ok() { "accepted" } else { "refused" });
            if let (Ok(r), Some(text)) = (r, text) {
                ensure!(track::allocs() == before, "a view allocates");
                check_ref(r, text, Some(p))?;
            }
            ensure!(s.as_bytes() == bytes, "the C string was changed");
            track::on(|| drop(s));
        },
        k => {
            let before = track::allocs();
            let r = track::on(|| {
                catches(|| match k {
                    1 => char_p::new(&*s),
                    2 => char_p::new(s),
                    _ => s.into(),
                })
            });
            ensure!(r.is_ok() == text.is_some(), "{bytes:?} was {}", if r.is_ok() { "accepted" } else { "refused" });
            if let (Ok(b), Some(text)) = (r, text) {
                if k != 1 {
                    ensure!(track::allocs() == before, "taking a CString allocates");
                    ensure!(b.to_bytes().as_ptr() == p, "taking a CString moved the text");
                }
                owned(c, b, text, depth)?;
            }
        },
    }
    track::end()
}

macro_rules! literals {($($lit:literal => $text:literal),* $(,)?) => {{
    [$( (safer_ffi::c!($lit), $text) ),*]
}}}
fn literals(c: &mut Chooser) -> Res {
    let all = literals! {
        "" => "", "a" => "a", "ab" => "ab", "a\0" => "a", "\0" => "", "é" => "é", "日本語" => "日本語", "Hello, World!" => "Hello, World!",
        "Hello, World!\0" => "Hello, World!", "\x01\x7f" => "\x01\x7f", "tab\tnl\n\"quoted\" \\ % {}" => "tab\tnl\n\"quoted\" \\ % {}",
        "\u{10ffff}" => "\u{10ffff}", r"raw\0" => "raw\\0", "multi
line" => "multi\nline", "0123456789012345678901234567890123456789012345678901234567890123456789" => "0123456789012345678901234567890123456789012345678901234567890123456789",
    };
    let n = all.len();
    let (r, text) = match c.choose(n + 2) {
        i if i < n => all[i],
        i if i == n => (safer_ffi::c!(), ""),
        _ => (char_p::Ref::EMPTY, ""),
    };
    c.log(|| format!("literal {text:?}"));
    check_ref(r, text, None)?;
    let b = track::on(|| r.to_owned());
    owned(c, b, text, 2)?;
    track::end()
}

/// Null and absence.
fn nulls(c: &mut Chooser) -> Res {
    unsafe {
        match c.choose(4) {
            0 => {
                let l = into_raw(None::<char_p::Box>);
                ensure!((l as *const u8).is_null(), "None is not null");
                ensure!(matches!(from_raw::<Option<char_p::Box>>(l), Some(None)), "null does not read as None");
                ensure!(from_raw::<char_p::Box>(l).is_none(), "null was accepted as a C string");
            },
            1 => {
                let l = into_raw(None::<char_p::Ref<'_>>);
                ensure!((l as *const u8).is_null(), "None is not null");
                ensure!(matches!(from_raw::<Option<char_p::Ref<'_>>>(l), Some(None)), "null does not read as None");
                ensure!(from_raw::<char_p::Ref<'_>>(l).is_none(), "null was accepted as a C string");
            },
            2 => {
                let l = into_raw(None::<char_p::Raw>);
                ensure!((l as *const u8).is_null(), "None is not null");
                ensure!(from_raw::<char_p::Raw>(l).is_none(), "null was accepted as a C string");
            },
            _ => {
                // Absence costs nothing to make, check and drop.
                let before = track::allocs();
                track::on(|| {
                    let o: Option<char_p::Box> = from_raw(into_raw(None::<char_p::Box>)).unwrap();
                    drop(o);
                });
                ensure!(track::allocs() == before, "None allocates");
            },
        }
    }
    track::end()
}

pub fn phases(s: &mut Session) {
    let (len, d) = if s.args.thorough { (8, 4) } else { (6, 3) };
    let all: Vec<String> = texts(&['\0', 'a', 'é'], len).into_iter().map(|t| t.into_iter().collect()).collect();
    s.phase("from-text", all.len(), |c| {
        let t = &all[c.top];
        let r = from_text(c, t, d);
        c.outcome(hash_of(t));
        r
    });
    // Every length up to 70, a NUL at every position or at two.
    let mut long = vec![];
    for n in 0..=70usize {
        let t: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
        long.push(t.clone());
        for i in 0..n {
            let mut b = t.clone().into_bytes();
            b[i] = 0;
            long.push(String::from_utf8(b.clone()).unwrap());
            b[n - 1] = 0;
            long.push(String::from_utf8(b).unwrap());
        }
    }
    s.phase("long", long.len(), |c| from_text(c, &long[c.top], 1));
    let all = texts(&[b'a', 0xC3, 0xA9, 0xF0], if s.args.thorough { 6 } else { 4 });
    s.phase("from-c", all.len(), |c| from_c(c, &all[c.top], d));
    s.phase("literals", 1, literals);
    s.phase("null", 1, nulls);
}
