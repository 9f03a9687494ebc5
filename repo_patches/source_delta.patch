From 41e03290bbc0e9836cec1bd8c27133e2ed09e0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:40 +0000
Subject: [PATCH 01/29] fix: check the bounds of Bytes::shrink_to against the
 actual length

The raw `len` field holds data when the slice is inlined, which made in-bounds
ranges panic (also in subsliced, split_at and io::Read) and let out-of-bounds
ones through; `..=usize::MAX` wrapped around to an empty range.
---
 src/bytes.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index 4226029..5f9ae30 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -223,16 +223,16 @@ impl<'a> Bytes<'a> {
     pub fn shrink_to<R: RangeBounds<usize>>(&mut self, range: R) {
         let start = match range.start_bound() {
             core::ops::Bound::Included(i) => *i,
-            core::ops::Bound::Excluded(i) => *i + 1,
+            core::ops::Bound::Excluded(i) => i.checked_add(1).expect("range start out of bounds"),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(i) => *i + 1,
+            core::ops::Bound::Included(i) => i.checked_add(1).expect("range end out of bounds"),
             core::ops::Bound::Excluded(i) => *i,
             core::ops::Bound::Unbounded => self.len(),
         };
         assert!(start <= end);
-        assert!(end <= self.len);
+        assert!(end <= self.len());
         let len = end - start;
         if len <= Self::MAX_INLINE_SIZE {
             // SAFETY: `&self[start..end]` length has been checked, which is `inline_unchecked`'s only safety requirement.
-- 
2.43.0


From c5e4dc019721d56b640a1630742b7656aad87f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:40 +0000
Subject: [PATCH 02/29] fix: Bytes::noalloc_upgrade upgraded borrowed slices
 and refused owned ones

The condition was inverted with regard to Bytes::upgrade, handing out a
`Bytes<'static>` that points into a buffer that is merely borrowed.
---
 src/bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index 5f9ae30..4d7f109 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -346,7 +346,7 @@ impl<'a> Bytes<'a> {
     /// # Errors
     /// Returns the original instance if it couldn't be proven to be `'static`.
     pub fn noalloc_upgrade(self: Bytes<'a>) -> Result<Bytes<'static>, Self> {
-        if !self.vtable().map_or(true, |vt| !vt.is_borrowed()) {
+        if self.vtable().map_or(true, |vt| !vt.is_borrowed()) {
             Ok(unsafe { mem::transmute(self) })
         } else {
             Self::inline_slice(&self).ok_or(self)
-- 
2.43.0


From b8d104bf24ae0c91fb6989f1ecf801d01dd4b916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:40 +0000
Subject: [PATCH 03/29] fix: Bytes allocation predictions must use the inlining
 threshold

`clone_will_allocate` and `upgrade_will_allocate` compared against the size of
`Bytes` and thus denied the allocation for lengths 33 to 39, and
`noalloc_clone` refused short slices which `Clone` inlines.
---
 src/bytes.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index 4d7f109..9d991aa 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -359,7 +359,10 @@ impl<'a> Bytes<'a> {
             // SAFETY: `Bytes` is `Copy` if it is inlined.
             return Some(unsafe { core::ptr::read(self) });
         };
-        let retain = vtable.retain?;
+        let Some(retain) = vtable.retain else {
+            // Mirror `Clone`, which doesn't allocate for slices it can inline.
+            return Self::inline_slice(self);
+        };
         unsafe { retain(self.owner, self.capacity) };
         Some(Self {
             start: self.start,
@@ -374,7 +377,7 @@ impl<'a> Bytes<'a> {
     /// Returns `true` if a call to [`Self::upgrade`] would cause an allocation.
     pub fn upgrade_will_allocate(&self) -> bool {
         match self.vtable() {
-            Some(t) => t.is_borrowed() && self.len() >= mem::size_of::<Self>(),
+            Some(t) => t.is_borrowed() && self.len() > Self::MAX_INLINE_SIZE,
             None => false,
         }
     }
@@ -382,7 +385,7 @@ impl<'a> Bytes<'a> {
     /// Returns `true` if a call to [`Clone::clone`] would cause an allocation.
     pub fn clone_will_allocate(&self) -> bool {
         match self.vtable() {
-            Some(t) => t.retain.is_none() && self.len() >= mem::size_of::<Self>(),
+            Some(t) => t.retain.is_none() && self.len() > Self::MAX_INLINE_SIZE,
             None => false,
         }
     }
-- 
2.43.0


From 145c0383adeddd12de62cd5da516f37705316816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:21 +0000
Subject: [PATCH 04/29] fix: don't downcast a shrunk Bytes into stabby's
 ArcSlice

As documented, and as the Arc<[u8]> downcast does: a Bytes whose tail had been
cut off was downcast into an ArcSlice that lost its end.
---
 src/bytes.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index 9d991aa..2db4f3d 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -753,7 +753,10 @@ impl<'a> TryFrom<Bytes<'a>> for stabby::sync::ArcSlice<u8> {
         let Some(vtable) = value.vtable() else {
             return Err(value);
         };
-        match core::ptr::eq(vtable, &STABBY_ARCSLICE_BYTESVT) && core::ptr::eq(value.start, data) {
+        match core::ptr::eq(vtable, &STABBY_ARCSLICE_BYTESVT)
+            && core::ptr::eq(value.start, data)
+            && value.start.wrapping_add(value.len) as usize == value.capacity
+        {
             true => unsafe {
                 let value = mem::ManuallyDrop::new(value);
                 let arc = stabby::sync::ArcSlice::from_raw(stabby::alloc::AllocSlice {
-- 
2.43.0


From 4a38ae37f551a9507e48ca03d44c36db67deb0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:52 +0000
Subject: [PATCH 05/29] fix: implement ReprC for c_int, as documented

---
 src/layout/impls.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index ea518a3..7d3fd98 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -960,6 +960,7 @@ unsafe
 
         type OPAQUE_KIND = OpaqueKind::Concrete;
     }
+from_CType_impl_ReprC! { c_int }
 
 impl_ReprC_for! { unsafe {
     bool
-- 
2.43.0


From 5ba9879d1b107b6cc8b3031ed0259975bbf50d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:52 +0000
Subject: [PATCH 06/29] fix: a null Out reference is not valid

---
 src/layout/impls.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index 7d3fd98..ff25482 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -1017,6 +1017,7 @@ impl_ReprC_for! { unsafe {
     @for['out, T : 'out + Sized + ReprC]
     Out<'out, T>
         => |ref it: *mut T::CLayout| {
+            it.is_null().not() &&
             (*it as usize) % ::core::mem::align_of::<T>() == 0
         },
 }}
-- 
2.43.0


From 81d548d86d90cd381779c83379035d1133146aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:09 +0000
Subject: [PATCH 07/29] fix: emit the actual discriminants of enums in headers

The discriminant expressions were re-evaluated outside of the enum, and thus as
`i32` ones (e.g., `1 << 40` was emitted as `256`).
---
 src/proc_macro/derives/repr_c/enum_.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/proc_macro/derives/repr_c/enum_.rs b/src/proc_macro/derives/repr_c/enum_.rs
index 6b7893e..db13cfe 100644
--- a/src/proc_macro/derives/repr_c/enum_.rs
+++ b/src/proc_macro/derives/repr_c/enum_.rs
@@ -138,9 +138,11 @@ fn derive (
         let ref each_enum_variant =
             variants.try_vmap(|v| Result::Ok({
                 let ref VariantName_str = v.ident.to_string();
-                let discriminant = if let Some((_eq, disc)) = &v.discriminant {
+                let discriminant = if v.discriminant.is_some() {
+                    let VariantName @ _ = &v.ident;
+                    // Use the actual discriminant, with its actual type.
                     quote!(
-                        #ඞ::Some(&(#disc, ).0 as _)
+                        #ඞ::Some(&(#EnumName::#VariantName as #Int))
                     )
                 } else {
                     quote!(
-- 
2.43.0


From 3102e5ae05487da2637ae3aa221af1fe3040ce2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:09 +0000
Subject: [PATCH 08/29] fix: `isize` is `ptrdiff_t` in the generated headers

`ssize_t` is not declared by the headers that get included.
---
 src/layout/impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index ff25482..d7df9a5 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -75,7 +75,7 @@ const _: () = { macro_rules! impl_CTypes {
             // unsafe i128 => "int128",
 
             unsafe // Safety: See `usize`'s
-            isize => "ssize" "IntPtr",
+            isize => "ptrdiff" "IntPtr",
         }
         #[cfg(docs)] impl_CTypes! { @fns (A1, A2) } #[cfg(not(docs))]
         impl_CTypes! { @fns
-- 
2.43.0


From d0637814ab59fe7a5f6efbf19bd50ab4d76967f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:11 +0000
Subject: [PATCH 09/29] fix: declarators of nested function pointers in C
 headers

A function pointer returned by a function pointer, pointed to, or aliased, has to
be spelled around the declarator it is part of.
---
 src/headers/languages/c.rs |  4 ++--
 src/layout/impls.rs        | 41 +++++++++++++++++++++-----------------
 2 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/headers/languages/c.rs b/src/headers/languages/c.rs
index 4082680..9469382 100644
--- a/src/headers/languages/c.rs
+++ b/src/headers/languages/c.rs
@@ -48,9 +48,9 @@ impl HeaderLanguage for C {
                 mk_out!(indent, ctx.out());
                 self.emit_docs(ctx, docs, indent)?;
                 let ref aliaser = self_ty.name(self);
-                let ref aliasee = inner_ty.name(self);
+                let ref alias = inner_ty.name_wrapping_var(self, aliaser);
                 out!((
-                    "typedef {aliasee} {aliaser};"
+                    "typedef {alias};"
                 ));
 
                 out!("\n");
diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index d7df9a5..e7f6c89 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -299,16 +299,23 @@ const _: () = { macro_rules! impl_CTypes {
                 var_name: &'_ str,
             ) -> fmt::Result
             {
-                write!(fmt, "{} ", Ret::name(&crate::headers::languages::C))?;
-                write!(fmt, "(*{})(", var_name)?;
+                use fmt::Write as _;
+
+                // The declarator has to be wrapped by the one of the returned type,
+                // which may be a function pointer too.
+                let ref mut declarator = format!("(*{})(", var_name);
                 let _empty = true; $(
                 let _empty = false;
-                write!(fmt, "{}", $An::name(&crate::headers::languages::C))?; $(
-                write!(fmt, ", {}", $Ai::name(&crate::headers::languages::C))?; )*)?
+                write!(declarator, "{}", $An::name(&crate::headers::languages::C))?; $(
+                write!(declarator, ", {}", $Ai::name(&crate::headers::languages::C))?; )*)?
                 if _empty {
-                    fmt.write_str("void")?;
+                    declarator.write_str("void")?;
                 }
-                fmt.write_str(")")
+                declarator.write_str(")")?;
+                fmt.write_str(&Ret::name_wrapping_var(
+                    &crate::headers::languages::C,
+                    declarator,
+                ))
             }
 
             __cfg_csharp__! {
@@ -608,12 +615,11 @@ const _: () = { macro_rules! impl_CTypes {
                 var_name: &'_ str,
             ) -> fmt::Result
             {
-                write!(fmt,
-                    "{} const *{sep}{}",
-                    T::name(&crate::headers::languages::C),
-                    var_name,
-                    sep = if var_name.is_empty() { "" } else { " " },
-                )
+                let sep = if var_name.is_empty() { "" } else { " " };
+                fmt.write_str(&T::name_wrapping_var(
+                    &crate::headers::languages::C,
+                    &format!("const *{sep}{var_name}"),
+                ))
             }
 
             __cfg_csharp__! {
@@ -675,12 +681,11 @@ const _: () = { macro_rules! impl_CTypes {
                 var_name: &'_ str,
             ) -> fmt::Result
             {
-                write!(fmt,
-                    "{} *{sep}{}",
-                    T::name(&crate::headers::languages::C),
-                    var_name,
-                    sep = if var_name.is_empty() { "" } else { " " },
-                )
+                let sep = if var_name.is_empty() { "" } else { " " };
+                fmt.write_str(&T::name_wrapping_var(
+                    &crate::headers::languages::C,
+                    &format!("*{sep}{var_name}"),
+                ))
             }
 
             __cfg_csharp__! {
-- 
2.43.0


From 14b4395268c1537838ee0a2a2ee35610eb634522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:01 +0000
Subject: [PATCH 10/29] fix: names of opaque types with nested generics

Header generation would panic (or mangle the name wrongly) on commas nested within
the generic parameters of an opaque type.
---
 src/_lib.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/_lib.rs b/src/_lib.rs
index 61779b1..a33f939 100644
--- a/src/_lib.rs
+++ b/src/_lib.rs
@@ -616,12 +616,29 @@ mod __ {
             splitter(orig).map_or((orig, None), |(l, r)| (l, Some(r)))
         }
 
+        /// Split on the commas which are not nested within `<…>`, `(…)`, or `[…]`.
+        fn split_top_level<'r> (
+            generics: &'r str,
+        ) -> impl 'r + Iterator<Item = &'r str>
+        {
+            let mut depth = 0_usize;
+            let mut prev = ' ';
+            generics.split(move |c| {
+                match c {
+                    | '<' | '(' | '[' => depth += 1,
+                    | '>' if prev == '-' => { /* `->` */ },
+                    | '>' | ')' | ']' => depth = depth.saturating_sub(1),
+                    | _ => {},
+                }
+                prev = c;
+                c == ',' && depth == 0
+            })
+        }
+
         let ty_name = ty_name.trim();
         if let Some(tuple_innards) = ty_name.strip_prefix('(') {
             // Tuple
-            tuple_innards
-                .strip_suffix(')').unwrap()
-                .split(',')
+            split_top_level(tuple_innards.strip_suffix(')').unwrap())
                 .for_each(|generic| {
                     append_unqualified_name(out, generic);
                 })
@@ -661,7 +678,7 @@ mod __ {
             }
             if let Some(generics) = mb_generics {
                 let generics = generics.strip_suffix('>').unwrap();
-                generics.split(',').for_each(|generic| {
+                split_top_level(generics).for_each(|generic| {
                     append_unqualified_name(out, generic);
                 });
             }
-- 
2.43.0


From f181c995b9f8077a2a8e08d742ef6a8e0e72556a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:14 +0000
Subject: [PATCH 11/29] fix: honour rename on exported async functions

---
 src/proc_macro/ffi_export/fn_/async_fn.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/proc_macro/ffi_export/fn_/async_fn.rs b/src/proc_macro/ffi_export/fn_/async_fn.rs
index 00a98c4..c0feb77 100644
--- a/src/proc_macro/ffi_export/fn_/async_fn.rs
+++ b/src/proc_macro/ffi_export/fn_/async_fn.rs
@@ -318,8 +318,11 @@ fn export (
         let pub_ = &fun.vis;
         let each_attr = &fun.attrs;
         fun_signature.asyncness = None;
+        let each_rename = rename.iter().map(|Rename { _kw, _eq, new_name }| {
+            quote!( #_kw #_eq #new_name )
+        });
         quote!(
-            #[::safer_ffi::ffi_export]
+            #[::safer_ffi::ffi_export( #(#each_rename)* )]
             #(#each_attr)*
             #pub_ #fun_signature
             {
-- 
2.43.0


From 25c68faac0ddf0d77541e64a8fc109b7dd068018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:09 +0000
Subject: [PATCH 12/29] fix: complete the join future of a tokio task that was
 cancelled

`dyn_spawn` of tokio's handle called `into_panic()` on every `JoinError`, so
that awaiting a task whose runtime had shut down panicked inside of the FFI
poll function. As `dyn_spawn_blocking` does, only resume actual panics.
---
 src/dyn_traits/futures/executor.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dyn_traits/futures/executor.rs b/src/dyn_traits/futures/executor.rs
index f8bfd84..3fcbb7a 100644
--- a/src/dyn_traits/futures/executor.rs
+++ b/src/dyn_traits/futures/executor.rs
@@ -157,8 +157,11 @@ match_cfg!(feature = "tokio" => {
             let fut = self.spawn(future.into_future());
             let fut = async {
                 fut .await
-                    .unwrap_or_else(|caught_panic| {
-                        ::std::panic::resume_unwind(caught_panic.into_panic())
+                    .unwrap_or_else(|err| match err.try_into_panic() {
+                        Ok(caught_panic) => {
+                            ::std::panic::resume_unwind(caught_panic);
+                        },
+                        Err(err) => debug_assert!(err.is_cancelled()),
                     })
             };
             Box::pin(fut)
-- 
2.43.0


From cf8f25a80910dafc22b4e4939aa78641bc1fce1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:38 +0000
Subject: [PATCH 13/29] fix: define the types nested in Python headers as
 Python (`cffi`) code

The types behind pointers, arrays, function pointers and closures were defined
as C code in Python headers, with directives that `cffi` rejects, and with the
C flavour of enums. So were the `#include`s of the standard headers.
---
 src/layout/_mod.rs  |  13 +++++-
 src/layout/impls.rs | 105 +++++++++++++++++++++++++++++++++++++-------
 2 files changed, 100 insertions(+), 18 deletions(-)

diff --git a/src/layout/_mod.rs b/src/layout/_mod.rs
index e9f0f5c..c6337bd 100644
--- a/src/layout/_mod.rs
+++ b/src/layout/_mod.rs
@@ -129,7 +129,7 @@ impl<T : LegacyCType> CType for T {
                 },
                 #[cfg(feature = "python-headers")]
                 | _case if language.is::<Python>() => {
-                    <Self as LegacyCType>::c_define_self(definer)
+                    <Self as LegacyCType>::python_define_self(definer)
                 },
                 | _ => unimplemented!(),
             }
@@ -530,6 +530,17 @@ unsafe trait LegacyCType
             }
         }
 
+        __cfg_python__! {
+            /// Same as [`LegacyCType::c_define_self`]`()`, for the `cdef` source of
+            /// `cffi`, which knows of the standard types, and supports neither
+            /// directives nor the C definitions of the types involved.
+            fn python_define_self (definer: &'_ mut dyn Definer)
+              -> io::Result<()>
+            {
+                Self::c_define_self(definer)
+            }
+        }
+
         __cfg_csharp__! {
             /// Extra typedef code (_e.g._ `[LayoutKind.Sequential] struct ...`)
             fn csharp_define_self (definer: &'_ mut dyn Definer)
diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index e7f6c89..79b9ff1 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -115,26 +115,27 @@ const _: () = { macro_rules! impl_CTypes {
             fn c_define_self (definer: &'_ mut dyn Definer)
               -> io::Result<()>
             {
-                let ref me = Self::c_var("").to_string();
-                definer.define_once(
-                    me,
-                    &mut |definer| {
-                        Item::define_self(&crate::headers::languages::C, definer)?;
-                        writeln!(definer.out(),
-                            concat!(
-                                "typedef struct {{\n",
-                                "    {inline_array};\n",
-                                "}} {me};\n",
-                            ),
-                            inline_array = Item::name_wrapping_var(&crate::headers::languages::C, concat!(
-                                "idx[", stringify!($N), "]",
-                            )),
-                            me = me,
-                        )
-                    }
+                define_array_struct::<Item>(
+                    &crate::headers::languages::C,
+                    definer,
+                    &Self::c_var("").to_string(),
+                    $N,
                 )
             }
 
+            __cfg_python__! {
+                fn python_define_self (definer: &'_ mut dyn Definer)
+                  -> io::Result<()>
+                {
+                    define_array_struct::<Item>(
+                        &crate::headers::languages::Python,
+                        definer,
+                        &Self::c_var("").to_string(),
+                        $N,
+                    )
+                }
+            }
+
             fn c_var_fmt (
                 fmt: &'_ mut fmt::Formatter<'_>,
                 var_name: &'_ str,
@@ -294,6 +295,17 @@ const _: () = { macro_rules! impl_CTypes {
                 Ok(())
             }
 
+            __cfg_python__! {
+                fn python_define_self (definer: &'_ mut dyn Definer)
+                  -> io::Result<()>
+                {
+                    Ret::define_self(&crate::headers::languages::Python, definer)?; $(
+                    $An::define_self(&crate::headers::languages::Python, definer)?; $(
+                    $Ai::define_self(&crate::headers::languages::Python, definer)?; )*)?
+                    Ok(())
+                }
+            }
+
             fn c_var_fmt (
                 fmt: &'_ mut fmt::Formatter<'_>,
                 var_name: &'_ str,
@@ -508,6 +520,14 @@ const _: () = { macro_rules! impl_CTypes {
                 )
             }
 
+            __cfg_python__! {
+                fn python_define_self (_: &'_ mut dyn Definer)
+                  -> io::Result<()>
+                {
+                    Ok(())
+                }
+            }
+
             fn c_var_fmt (
                 fmt: &'_ mut fmt::Formatter<'_>,
                 var_name: &'_ str,
@@ -610,6 +630,14 @@ const _: () = { macro_rules! impl_CTypes {
                 T::define_self(&crate::headers::languages::C, definer)
             }
 
+            __cfg_python__! {
+                fn python_define_self (definer: &'_ mut dyn Definer)
+                  -> io::Result<()>
+                {
+                    T::define_self(&crate::headers::languages::Python, definer)
+                }
+            }
+
             fn c_var_fmt (
                 fmt: &'_ mut fmt::Formatter<'_>,
                 var_name: &'_ str,
@@ -676,6 +704,14 @@ const _: () = { macro_rules! impl_CTypes {
                 T::define_self(&crate::headers::languages::C, definer)
             }
 
+            __cfg_python__! {
+                fn python_define_self (definer: &'_ mut dyn Definer)
+                  -> io::Result<()>
+                {
+                    T::define_self(&crate::headers::languages::Python, definer)
+                }
+            }
+
             fn c_var_fmt (
                 fmt: &'_ mut fmt::Formatter<'_>,
                 var_name: &'_ str,
@@ -852,6 +888,14 @@ unsafe
                 )
             }
 
+            __cfg_python__! {
+                fn python_define_self (_: &'_ mut dyn Definer)
+                  -> io::Result<()>
+                {
+                    Ok(())
+                }
+            }
+
             fn c_var_fmt (
                 fmt: &'_ mut fmt::Formatter<'_>,
                 var_name: &'_ str,
@@ -890,6 +934,33 @@ unsafe
     }
 from_CType_impl_ReprC! { Bool }
 
+__cfg_headers__! {
+    /// Inline arrays are wrapped in a `struct` so as to be usable by value.
+    fn define_array_struct<Item : CType> (
+        language: &'_ dyn crate::headers::languages::HeaderLanguage,
+        definer: &'_ mut dyn Definer,
+        me: &'_ str,
+        len: usize,
+    ) -> io::Result<()>
+    {
+        definer.define_once(me, &mut |definer| {
+            Item::define_self(language, definer)?;
+            writeln!(definer.out(),
+                concat!(
+                    "typedef struct {{\n",
+                    "    {inline_array};\n",
+                    "}} {me};\n",
+                ),
+                inline_array = Item::name_wrapping_var(
+                    language,
+                    &format!("idx[{len}]"),
+                ),
+                me = me,
+            )
+        })
+    }
+}
+
 /// A `ReprC` _standalone_ type with the same layout and ABI as
 /// [`::libc::c_int`][crate::libc::c_int].
 ///
-- 
2.43.0


From db613120c14e56a5ef56980354b641c04c654ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:38 +0000
Subject: [PATCH 14/29] fix: give enums their discriminants and size in Python
 headers
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Explicit discriminants were left out of them, and `#[repr(u8)]` (…) enums were
declared as C `enum`s, of the size of an `int`.
---
 src/headers/languages/python.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/headers/languages/python.rs b/src/headers/languages/python.rs
index 5c10a25..e638c02 100644
--- a/src/headers/languages/python.rs
+++ b/src/headers/languages/python.rs
@@ -24,7 +24,7 @@ impl HeaderLanguage for Python {
         ctx: &'_ mut dyn Definer,
         _docs: Docs<'_>,
         self_ty: &'_ dyn PhantomCType,
-        _backing_integer: Option<&dyn PhantomCType>,
+        backing_integer: Option<&dyn PhantomCType>,
         variants: &'_ [EnumVariant<'_>],
     ) -> io::Result<()>
     {
@@ -34,7 +34,11 @@ impl HeaderLanguage for Python {
         let ref short_name = self_ty.short_name();
         let ref full_ty_name = self_ty.name(self);
 
-        out!(("typedef enum {short_name} {{"));
+        if backing_integer.is_some() {
+            out!(("enum {short_name} {{"));
+        } else {
+            out!(("typedef enum {short_name} {{"));
+        }
 
         if let _ = indent.scope() {
             for v in variants {
@@ -44,11 +48,23 @@ impl HeaderLanguage for Python {
                     enum_name,
                     v.name,
                 ) */;
-                out!(("{variant_name},"));
+                if let Some(value) = v.discriminant {
+                    out!(("{variant_name} = {value:?},"));
+                } else {
+                    out!(("{variant_name},"));
+                }
             }
         }
 
-        out!(("}} {full_ty_name};"));
+        if let Some(intn) = backing_integer {
+            let ref alias = intn.name_wrapping_var(self, full_ty_name);
+            out!((
+                "}};"
+                "typedef {alias};"
+            ));
+        } else {
+            out!(("}} {full_ty_name};"));
+        }
         out!("\n");
         Ok(())
     }
-- 
2.43.0


From 988a97f87b21f5c26bfcbbc1c4ea495a5ca02e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:38 +0000
Subject: [PATCH 15/29] fix: define the aliases that Python headers refer to

A renamed `#[repr(transparent)]` type behind a pointer, in an array, or in the
signature of a callback was printed by its own name, which Python headers did not
define.
---
 src/headers/languages/python.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/headers/languages/python.rs b/src/headers/languages/python.rs
index e638c02..0510560 100644
--- a/src/headers/languages/python.rs
+++ b/src/headers/languages/python.rs
@@ -19,6 +19,34 @@ impl HeaderLanguage for Python {
         return Ok(())
     }
 
+    fn supports_type_aliases(self: &'_ Python)
+      -> Option<&'_ dyn HeaderLanguageSupportingTypeAliases>
+    {
+        return Some(self);
+        // where
+        impl HeaderLanguageSupportingTypeAliases for Python {
+            fn emit_type_alias(
+                self: &'_ Self,
+                ctx: &'_ mut dyn Definer,
+                _docs: Docs<'_>,
+                self_ty: &'_ dyn PhantomCType,
+                inner_ty: &'_ dyn PhantomCType,
+            ) -> io::Result<()>
+            {
+                let ref indent = Indentation::new(4 /* ctx.indent_width() */);
+                mk_out!(indent, ctx.out());
+                let ref aliaser = self_ty.name(self);
+                let ref alias = inner_ty.name_wrapping_var(self, aliaser);
+                out!((
+                    "typedef {alias};"
+                ));
+
+                out!("\n");
+                Ok(())
+            }
+        }
+    }
+
     fn emit_simple_enum (
         self: &'_ Self,
         ctx: &'_ mut dyn Definer,
-- 
2.43.0


From c4ea20be65aa4e243b4acccb1d9806e1e3b3f379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:38 +0000
Subject: [PATCH 16/29] fix: declare string and float constants in Python
 headers

`#define NAME ...` stands for an integer constant: `cffi` modules with constants
of other types did not compile.
---
 src/headers/languages/python.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/headers/languages/python.rs b/src/headers/languages/python.rs
index 0510560..cda9bc8 100644
--- a/src/headers/languages/python.rs
+++ b/src/headers/languages/python.rs
@@ -203,17 +203,29 @@ impl HeaderLanguage for Python {
         ctx: &'_ mut dyn Definer,
         _docs: Docs<'_>,
         name: &'_ str,
-        _ty: &'_ dyn PhantomCType,
-        _skip_type: bool,
-        _value: &'_ dyn ::core::fmt::Debug,
+        ty: &'_ dyn PhantomCType,
+        skip_type: bool,
+        value: &'_ dyn ::core::fmt::Debug,
     ) -> io::Result<()>
     {
         let ref indent = Indentation::new(4 /* ctx.indent_width() */);
         mk_out!(indent, ctx.out());
 
-        out!((
-            "#define {name} ..."
-        ));
+        // `#define {name} ...` is only for integers.
+        let ref ty_name = ty.name(self);
+        if skip_type && format!("{value:?}").starts_with('"') {
+            out!((
+                "static const char * const {name};"
+            ));
+        } else if matches!(&ty_name[..], "float" | "double") {
+            out!((
+                "static const {ty_name} {name};"
+            ));
+        } else {
+            out!((
+                "#define {name} ..."
+            ));
+        }
 
         out!("\n");
         Ok(())
-- 
2.43.0


From 6446c484227fe868bb7f4bcd38787f85b5c957e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:11 +0000
Subject: [PATCH 17/29] fix: marshal c_int as a 4-byte integer in C# headers

`UnmanagedType.SysInt` is pointer-sized and cannot marshal an `int`.
---
 src/layout/impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index 79b9ff1..589f50b 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -1029,7 +1029,7 @@ unsafe
                 fn legacy_csharp_marshaler ()
                   -> Option<rust::String>
                 {
-                    Some("UnmanagedType.SysInt".into())
+                    Some("UnmanagedType.I4".into())
                 }
             }
         }
-- 
2.43.0


From 1adac11fe89d2e4a39a2e8db7f987b2326881d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:11 +0000
Subject: [PATCH 18/29] fix: keep the C# marshaler of the field of renamed
 transparent types

---
 src/proc_macro/derives/c_type/struct_.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/proc_macro/derives/c_type/struct_.rs b/src/proc_macro/derives/c_type/struct_.rs
index 5982831..7f2d50d 100644
--- a/src/proc_macro/derives/c_type/struct_.rs
+++ b/src/proc_macro/derives/c_type/struct_.rs
@@ -282,6 +282,12 @@ fn derive_transparent (
                         <#CFieldTy as #ඞ::CType>::name(language)
                     }
                 }
+
+                fn csharp_marshaler ()
+                  -> #ඞ::Option<#ඞ::String>
+                {
+                    <#CFieldTy as #ඞ::CType>::csharp_marshaler()
+                }
             }
         }
     ));
-- 
2.43.0


From cc37a9e1077393bc65770b84234769b78b90c878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:11 +0000
Subject: [PATCH 19/29] fix: do not emit `fixed` C# buffers of pointer-sized
 integers

C# only allows `fixed` buffers of a list of types that includes neither
`UIntPtr` nor `IntPtr`.
---
 src/layout/impls.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index 589f50b..df41845 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -161,8 +161,8 @@ const _: () = { macro_rules! impl_CTypes {
                             // Poor man's specialization to use `fixed` arrays.
                             if  [
                                     "bool",
-                                    "u8", "u16", "u32", "u64", "usize",
-                                    "i8", "i16", "i32", "i64", "isize",
+                                    "u8", "u16", "u32", "u64",
+                                    "i8", "i16", "i32", "i64",
                                     "float", "double",
                                 ].contains(&::core::any::type_name::<Item>())
                             {
-- 
2.43.0


From 65171e32f688c655fc83543d51225f0ad27a4484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:11 +0000
Subject: [PATCH 20/29] fix: give the float constants of C# headers the suffix
 they need

---
 src/headers/languages/csharp.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/headers/languages/csharp.rs b/src/headers/languages/csharp.rs
index 77246d2..a62d8af 100644
--- a/src/headers/languages/csharp.rs
+++ b/src/headers/languages/csharp.rs
@@ -260,8 +260,10 @@ impl HeaderLanguage for CSharp {
         if let _ = indent.scope() {
             self.emit_docs(ctx, docs, indent)?;
             let ty = ty.name(self);
+            // `1.0` is a `double`, which does not convert to `float`.
+            let suffix = if ty == "float" { "f" } else { "" };
             out!((
-                "public const {ty} {name} = {value:?};"
+                "public const {ty} {name} = {value:?}{suffix};"
             ));
         }
         out!(("}}"));
-- 
2.43.0


From ecbf8ac43697676f20fdc2a8ec9bc2986f4e7e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:24 +0000
Subject: [PATCH 21/29] fix: keep a type and a function of one name in stable
 headers

Collecting the items into a map by name silently dropped one of them.
---
 src/headers/_mod.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/headers/_mod.rs b/src/headers/_mod.rs
index 8bcd974..288bb15 100644
--- a/src/headers/_mod.rs
+++ b/src/headers/_mod.rs
@@ -399,15 +399,19 @@ impl Builder<'_, WhereTo> {
         ;
         let (mut storage0, mut storage1) = (None, None);
         let gen_defs: &mut dyn Iterator<Item = _> = if stable_header {
-            storage0.get_or_insert(
-                crate::inventory::iter
-                    .into_iter()
-                    .map(|crate::FfiExport { name, gen_def }| (name, gen_def))
-                    // Sort the definitions for a reliable header generation.
-                    .collect::<::std::collections::BTreeMap<_, _>>()
+            storage0.get_or_insert({
+                let mut items =
+                    crate::inventory::iter
+                        .into_iter()
+                        .collect::<rust::Vec<_>>()
+                ;
+                // Sort the definitions for a reliable header generation.
+                // (A type and a function may have the same name: keep both.)
+                items.sort_by_key(|crate::FfiExport { name, .. }| *name);
+                items
                     .into_iter()
-                    .map(|(_, gen_def)| gen_def)
-            )
+                    .map(|crate::FfiExport { gen_def, .. }| gen_def)
+            })
         } else {
             storage1.get_or_insert(
                 crate::inventory::iter
-- 
2.43.0


From ac4a4f2e412a708623397ae4da11429a81a8dc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:39 +0000
Subject: [PATCH 22/29] fix: refuse to emit two constants of one name into a
 header

Functions already did; the second of two constants was emitted too (or
dropped), silently.
---
 src/proc_macro/ffi_export/const_.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/proc_macro/ffi_export/const_.rs b/src/proc_macro/ffi_export/const_.rs
index 93ab257..2181bd8 100644
--- a/src/proc_macro/ffi_export/const_.rs
+++ b/src/proc_macro/ffi_export/const_.rs
@@ -79,6 +79,18 @@ fn handle (
                         definer: &'_ mut dyn #ඞ::Definer,
                         lang: #ඞ::Language,
                     | {
+                        if ! definer.insert(#VAR_str) {
+                            return #ඞ::result::Result::Err(
+                                #ඞ::io::Error::new(
+                                    #ඞ::io::ErrorKind::AlreadyExists,
+                                    #ඞ::concat!(
+                                        "Error, attempted to declare `",
+                                        #VAR_str,
+                                        "` while another declaration already exists",
+                                    ),
+                                )
+                            );
+                        }
                         #krate::__with_cfg_python__!(|$if_cfg_python| {
                             use #krate::headers::{
                                 Language,
-- 
2.43.0


From 84445d498fb4ac1e54fb5bdd2c32b203467052a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:40 +0000
Subject: [PATCH 23/29] fix: names of opaque types with function pointer
 parameters

Header generation panicked on `Opaque<extern "C" fn(&Vec<u8>)>`.
---
 src/_lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/_lib.rs b/src/_lib.rs
index a33f939..2a1a851 100644
--- a/src/_lib.rs
+++ b/src/_lib.rs
@@ -658,7 +658,8 @@ mod __ {
             out.push('_');
             let (mut path, mb_generics) = mb_split_with(
                 ty_name,
-                |s| s.split_once('<'),
+                // (The `<` of `fn(&Vec<u8>)` starts no generics of the whole type.)
+                |s| s.strip_suffix('>')?.split_once('<'),
             );
             let is_valid_for_ident = |c: char| {
                 c.is_alphanumeric() || matches!(c, '_')
@@ -677,7 +678,6 @@ mod __ {
                 });
             }
             if let Some(generics) = mb_generics {
-                let generics = generics.strip_suffix('>').unwrap();
                 split_top_level(generics).for_each(|generic| {
                     append_unqualified_name(out, generic);
                 });
-- 
2.43.0


From 344162029906359230484f611a59b1d5efdad051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:24 +0000
Subject: [PATCH 24/29] fix: arrays of opaque items are opaque

---
 src/layout/impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index df41845..0024903 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -206,7 +206,7 @@ const _: () = { macro_rules! impl_CTypes {
                     })
                 }
             }
-        } type OPAQUE_KIND = OpaqueKind::Concrete; }
+        } type OPAQUE_KIND = Item::OPAQUE_KIND; }
 
         // ReprC
         /// Simplified for lighter documentation, but the actual impls
-- 
2.43.0


From d9189992e4e5c30e85892c71e10a3c3d24ea5e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:24 +0000
Subject: [PATCH 25/29] fix: refuse reprs split over several attributes in
 derive_ReprC

---
 src/proc_macro/derives/repr_c/_mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/proc_macro/derives/repr_c/_mod.rs b/src/proc_macro/derives/repr_c/_mod.rs
index c248539..ff629db 100644
--- a/src/proc_macro/derives/repr_c/_mod.rs
+++ b/src/proc_macro/derives/repr_c/_mod.rs
@@ -34,6 +34,12 @@ fn derive (
         ref generics,
         ref data,
     } = input;
+    // Only one `#[repr(…)]` is looked at: do not let another one affect the layout.
+    if let Some(extra) = attrs.iter().filter(|attr| attr.path.is_ident("repr")).nth(1) {
+        bail! {
+            "multiple `#[repr(…)]` annotations are not supported" => extra,
+        }
+    }
     let ret = match *data {
         | Data::Struct(DataStruct { ref fields, .. }) => struct_::derive(
             args,
-- 
2.43.0


From 1d6184570bf05c4e0deb20f58724e24d74fa78f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:24 +0000
Subject: [PATCH 26/29] fix: refuse type renames that are not identifiers

---
 src/proc_macro/derives/repr_c/args.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/proc_macro/derives/repr_c/args.rs b/src/proc_macro/derives/repr_c/args.rs
index cf73227..8c47ae7 100644
--- a/src/proc_macro/derives/repr_c/args.rs
+++ b/src/proc_macro/derives/repr_c/args.rs
@@ -31,7 +31,15 @@ impl Parse for Args {
                 | _case if snoopy.peek(kw::rename) => {
                     let _: kw::rename = input.parse().unwrap();
                     let _: Token![=] = input.parse()?;
-                    if ret.rename.replace(input.parse()?).is_some() {
+                    let new_name: Expr![String] = input.parse()?;
+                    if let Expr::Lit(ExprLit { lit: Lit::Str(ref lit), .. }) = new_name {
+                        if lit.parse_with(<Ident as ::syn::ext::IdentExt>::parse_any).is_err() {
+                            bail! {
+                                "expected a type name (identifier)" => lit,
+                            }
+                        }
+                    }
+                    if ret.rename.replace(new_name).is_some() {
                         return Err(input.error("duplicate attribute"));
                     }
                 },
-- 
2.43.0


From f41ff41a73042c998c473df7496a40e27c3bd187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:21 +0000
Subject: [PATCH 27/29] fix: accept pointers to function pointers as fields

---
 src/proc_macro/derives/repr_c/struct_.rs       | 4 ++--
 src/proc_macro/utils/trait_impl_shenanigans.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/proc_macro/derives/repr_c/struct_.rs b/src/proc_macro/derives/repr_c/struct_.rs
index 4ca2143..ba3dd44 100644
--- a/src/proc_macro/derives/repr_c/struct_.rs
+++ b/src/proc_macro/derives/repr_c/struct_.rs
@@ -246,7 +246,7 @@ fn derive_transparent (
         g   .make_where_clause()
             .predicates
             .push(parse_quote!(
-                #FieldTy : #ඞ::ReprC
+                (#FieldTy) : #ඞ::ReprC
             ))
         ;
     });
@@ -358,7 +358,7 @@ fn derive_transparent (
             g   .make_where_clause()
                 .predicates
                 .push(utils::allowing_trivial_bound(parse_quote!(
-                    #FieldTy : #ඞ::__HasNiche__
+                    (#FieldTy) : #ඞ::__HasNiche__
                 )))
         });
         let (intro_generics, fwd_generics, where_clauses) =
diff --git a/src/proc_macro/utils/trait_impl_shenanigans.rs b/src/proc_macro/utils/trait_impl_shenanigans.rs
index e840072..c2df1b0 100644
--- a/src/proc_macro/utils/trait_impl_shenanigans.rs
+++ b/src/proc_macro/utils/trait_impl_shenanigans.rs
@@ -54,7 +54,7 @@ fn ctype_generics (
             ,
             EachFieldTy
                 .map(|FieldTy @_ | parse_quote!(
-                    #FieldTy : #ConcreteReprC
+                    (#FieldTy) : #ConcreteReprC
                 ))
                 // .map(utils::allowing_trivial_bound)
             ,
-- 
2.43.0


From 7970dccd0335e79ccf79c2e91f97a70b228a5a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:34 +0000
Subject: [PATCH 28/29] fix: opaque types may be aligned (do not refuse their
 other reprs)

---
 src/proc_macro/derives/repr_c/_mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/proc_macro/derives/repr_c/_mod.rs b/src/proc_macro/derives/repr_c/_mod.rs
index ff629db..a1c664d 100644
--- a/src/proc_macro/derives/repr_c/_mod.rs
+++ b/src/proc_macro/derives/repr_c/_mod.rs
@@ -34,8 +34,14 @@ fn derive (
         ref generics,
         ref data,
     } = input;
-    // Only one `#[repr(…)]` is looked at: do not let another one affect the layout.
-    if let Some(extra) = attrs.iter().filter(|attr| attr.path.is_ident("repr")).nth(1) {
+    // Only the first `#[repr(…)]` is looked at: do not let another one affect the layout (unless it
+    // is not exposed anyway).
+    let mut reprs = attrs.iter().filter(|attr| attr.path.is_ident("repr"));
+    let is_opaque = reprs.next().map_or(false, |attr| matches!(
+        attr.parse_args::<Ident>(),
+        Ok(repr) if repr == "opaque"
+    ));
+    if let (false, Some(extra)) = (is_opaque, reprs.next()) {
         bail! {
             "multiple `#[repr(…)]` annotations are not supported" => extra,
         }
-- 
2.43.0


From f8ab1abd494935157aa3b2f8173b37d7a952b090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:50 +0000
Subject: [PATCH 29/29] fix: keep documentation inside of its comment in
 headers

Block comments and `#[doc = ...]` attributes can have several lines, which
spilled out of C# `///` comments, and text with `*/` ended C comments.
---
 src/headers/languages/c.rs      | 5 ++++-
 src/headers/languages/csharp.rs | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/headers/languages/c.rs b/src/headers/languages/c.rs
index 9469382..8ae0ed7 100644
--- a/src/headers/languages/c.rs
+++ b/src/headers/languages/c.rs
@@ -21,7 +21,10 @@ impl HeaderLanguage for C {
         }
 
         out!(("/** \\brief"));
-        for line in docs.iter().copied().map(str::trim) {
+        // (The lines of the block comments and `#[doc = ...]` attributes.)
+        for line in docs.iter().flat_map(|doc| doc.split('\n')).map(str::trim) {
+            // Do not let the docs end the comment.
+            let line = line.replace("*/", "* /");
             let sep = if line.is_empty() { "" } else { "  " };
             out!((" *{sep}{line}"));
         }
diff --git a/src/headers/languages/csharp.rs b/src/headers/languages/csharp.rs
index a62d8af..8193b07 100644
--- a/src/headers/languages/csharp.rs
+++ b/src/headers/languages/csharp.rs
@@ -21,7 +21,9 @@ impl HeaderLanguage for CSharp {
         }
 
         out!(("/// <summary>"));
-        for mut line in docs.iter().copied().map(str::trim) {
+        // What ends a line, and thus a `///` comment, for C#.
+        let newlines = ['\n', '\r', '\u{85}', '\u{2028}', '\u{2029}'];
+        for mut line in docs.iter().flat_map(|doc| doc.split(newlines)).map(str::trim) {
             let mut storage = None;
             if line.contains('`') {
                 let s = storage.get_or_insert_with(rust::String::new);
-- 
2.43.0

