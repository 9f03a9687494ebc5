"""Source of /verif/properties.jsonl: python3 lib/gen_properties.py rewrites it."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":m,"where":", ".join(files[:3])} for m in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

p("C01","Shared byte slices always hold the bytes they were sliced to",
 "After any sequence of constructing, cloning, upgrading, slicing, splitting, reading from and converting shareable byte slices, every live handle exposes exactly the bytes (and length) that the same sequence yields on plain byte arrays, and equality, ordering, hashing, I/O reads, formatting and serialisation agree with those bytes. Whether the bytes are stored inline or behind a pointer is never observable in the contents, and a range or index that is out of bounds is reported by the documented panic or error without disturbing any other handle.",
 ["inputs","histories"],"All operation sequences up to a depth bound over every constructor, with lengths straddling the inline threshold, every slice boundary kind (included, excluded, unbounded, extreme), with and without the stabby feature.",
 "The existing fuzz tests sample random sub-slices of heap-backed 10..100-byte slices and one doc example each; they never chain operations on inlined values, never mix origins and never try invalid ranges.",
 ["src/bytes.rs"],["Bytes::shrink_to","Bytes::split_at","Bytes::inline_unchecked","Bytes::as_slice","io::Read for Bytes","serde impls"],["public API of safer_ffi::bytes::Bytes"])
p("C02","Byte-slice storage is released exactly once, and never while still in use",
 "For any history of constructing, cloning, upgrading, slicing, splitting, downcasting and dropping byte-slice handles, the backing storage is released exactly once more often than it was retained, with the owner arguments it was registered with, after the last handle able to reach it is gone and never before; plain memory is deallocated once with its own layout. A handle whose lifetime was upgraded to 'static never points into storage it was only borrowing.",
 ["histories","inputs"],"All operation sequences up to a depth bound over all storage kinds (inline, static, borrowed, Arc, boxed, vec, stabby containers, foreign retain/release tables with and without either function).",
 "Ownership errors are silent: no test counts retain and release calls, none uses a foreign table, none upgrades a borrowed slice and then ends the borrow.",
 ["src/bytes.rs"],["Bytes::from_raw_parts","Bytes::noalloc_upgrade","Bytes::upgrade","Bytes::noalloc_clone","Drop for Bytes","BytesVt"],["retain/release callbacks","global allocator"])
p("C03","Allocation predictions and downcasts of byte slices tell the truth",
 "For every reachable byte slice, the will-allocate queries for cloning and for upgrading are true exactly when the operation then allocates, the operations documented not to allocate never do, a non-allocating clone is refused exactly when cloning would allocate, and a non-allocating upgrade succeeds exactly when the slice is owned, static, inline or small enough to be inlined. Downcasting to the shared container succeeds, giving back the very allocation with its reference count, exactly when the slice is backed by that container and was never narrowed; otherwise the original slice is handed back intact.",
 ["histories","inputs"],"All operation sequences up to a depth bound, followed by every query, over all storage kinds and lengths on both sides of every threshold.",
 "Two doc examples call the query functions on one very long and one very short string; no test observes the allocator, no test downcasts.",
 ["src/bytes.rs"],["clone_will_allocate","upgrade_will_allocate","noalloc_clone","noalloc_upgrade","TryFrom<Bytes> for Arc<[u8]>","TryFrom<Bytes> for stabby ArcSlice"],["global allocator","Arc strong counts"])
p("C04","Shared handles stay sound under every thread interleaving",
 "When several threads concurrently clone, use, slice, downcast and drop handles that share one resource (byte slices, reference-counted closures, reference-counted virtual objects, wakers), then in every interleaving each thread observes the shared contents unchanged until it drops its own last handle. The resource is destroyed exactly once, by the last drop and not earlier, and no interleaving deadlocks, leaks or frees it twice.",
 ["schedules"],"All interleavings of small 2-3 thread programs at the granularity of atomic operations and ownership callbacks, up to a preemption bound.",
 "The only multi-threaded test clones one closure into one background thread on whatever schedule the OS picks.",
 ["src/bytes.rs","src/closure/arc.rs","src/dyn_traits/_mod.rs","src/proc_macro/derives/dyn_trait/coercions.rs","src/dyn_traits/futures/_mod.rs"],["retain/release entries","Arc-based closures","Arc-based virtual pointers"],["drop counters and atomics of the resource"])
p("C05","FFI closures forward every call faithfully and own their environment once",
 "A closure converted to any of its FFI representations (borrowed, uniquely owned, reference counted; every supported arity) receives on each call exactly the arguments passed, in order, and returns exactly the closure's result, whether it is called through the Rust method or through the raw C function pointers and environment pointer. Its environment is dropped exactly once, when the last owner is released through either route, and never for a borrowed closure.",
 ["histories","inputs"],"All arities 0-9 of all three kinds, all sequences of call / clone / retain / release / move across the C boundary / drop up to a depth bound.",
 "Tests and doc examples exercise arity 0-1 once each and never look at drops.",
 ["src/closure/mod.rs","src/closure/arc.rs","src/closure/boxed.rs","src/closure/borrowed.rs"],["call, retain, release, free entries","From conversions"],["environment drop counters","recorded call arguments"])
p("C06","Virtual objects dispatch to the right method and are dropped once",
 "A value coerced into a virtual object of a user-declared trait, from any supported pointer type, runs for each method call that value's own implementation with the arguments given and returns its result, including across a pass through the C representation. The value is dropped exactly once for owning pointers and not at all for borrows, and cloning a virtual object clones owned values, copies references and bumps shared ones, independently of the original.",
 ["histories","programs"],"All source pointer kinds x trait shapes (receivers, argument and return types, clonable or not, Send/Sync markers, generics) x operation sequences up to a depth bound.",
 "tests/dyn_traits.rs merely compiles such coercions; almost none is executed and no drop is counted.",
 ["src/dyn_traits/_mod.rs","src/proc_macro/derives/dyn_trait/_mod.rs","src/proc_macro/derives/dyn_trait/coercions.rs","src/proc_macro/derives/dyn_trait/vtable_entry.rs","src/proc_macro/derives/dyn_trait/receiver_types.rs"],["VirtualPtr","vtable generation","release_vptr / retain_vptr"],["drop and clone counters","recorded method calls"])
p("C07","Futures crossing the FFI complete once, with the right value",
 "A future passed across the FFI is polled only while pending, reports completion exactly when it completes and pending otherwise, wakes the task that polled it last through the foreign waker, and is dropped exactly once. Spawning, blocking-spawning and blocking on futures through a foreign executor yields the task's own output to whoever awaits it, and an exported async function returns what its awaited future produced.",
 ["schedules","histories","fault_sequences"],"All poll/wake/drop/cancel/detach schedules up to a depth bound of a model executor over scripted futures, plus every completion order of small task sets.",
 "One smoke test runs one task on a live tokio runtime; it cannot choose wake orders, cancellations or detaches.",
 ["src/dyn_traits/futures/_mod.rs","src/dyn_traits/futures/executor.rs","src/proc_macro/ffi_export/fn_/async_fn.rs"],["FfiFuture poll","FfiFutureExecutor","ffi_export executor"],["scripted futures, wakers and executors"])
p("C08","Owned containers survive the FFI round trip without loss, leak or double free",
 "Converting any value of a standard owning or borrowed container (box, vector, string, boxed slice, boxed str, slice and str views, tuples) to its C-compatible form and back yields the same elements in the same memory, in order and with the same capacity, with each element dropped exactly once and each allocation freed once with its own layout. Mutating through the temporary Rust view is written back even when the mutation reallocates or panics.",
 ["inputs","histories","fault_sequences"],"All container kinds x element layouts (including zero-sized and over-aligned) x lengths and capacities x conversion/mutation sequences up to a depth bound x every panic point.",
 "Two string doc examples convert one literal; drops, layouts, capacities and panicking mutations are never observed.",
 ["src/boxed.rs","src/vec.rs","src/slice.rs","src/string/_mod.rs","src/string/slice.rs","src/tuple.rs","src/utils/_mod.rs"],["From/Into conversions","with_rust_mut","Drop impls"],["global allocator","element drop counters"])
p("C09","C strings are NUL-terminated, NUL-free inside, and round-trip exactly",
 "Every C-string view or owned C string obtained through a safe conversion points to exactly the given text followed by one NUL terminator, converts back to exactly that text, and any input that a C string cannot represent (an inner NUL, a missing terminator) is refused with the matching error and the input returned intact. Empty strings and null are handled without allocating for nothing, without double frees and without leaks.",
 ["inputs","histories"],"All strings up to a length bound over an alphabet of NUL, ASCII and multi-byte characters, through every conversion, with chains of operations up to a depth bound.",
 "The c_str macro test uses a couple of literals; no test feeds inner NULs to runtime conversions, empty owned strings or clones.",
 ["src/char_p.rs","src/c_char.rs","src/proc_macro/c_str.rs","src/utils/macros.rs"],["TryFrom/From conversions","EMPTY_SENTINEL handling","c! macro"],["returned pointers read until NUL","global allocator"])
p("C10","Validity checks accept exactly the bit patterns the Rust type allows",
 "For a value received from C, the validity check of its type says yes for every bit pattern that represents a legal Rust value and no for every illegal one the documentation says is detected: booleans other than 0 and 1, enum values that are no variant, null or misaligned non-nullable pointers, null function pointers, and any aggregate containing one. The checked conversion panics exactly on such patterns in builds with debug assertions.",
 ["inputs"],"All bit patterns of the byte-sized types, all relevant patterns (variants, neighbours, extremes) of wider ones, and all combinations of them in structs, arrays, tuples, optional and transparent types up to a nesting bound.",
 "One unit test checks five hand-written patterns of one struct.",
 ["src/layout/_mod.rs","src/layout/impls.rs","src/layout/macros.rs","src/proc_macro/derives/repr_c/enum_.rs","src/proc_macro/derives/repr_c/struct_.rs","src/proc_macro/derives/handle_fptr.rs","src/ptr.rs"],["ReprC::is_valid","from_raw","derive_ReprC"],["is_valid and from_raw on arbitrary bit patterns"])
p("C11","Optional FFI values use the niche, and absence and presence never mix up",
 "An optional value of a type with a forbidden bit pattern has the size and alignment of the type itself; it reads as absent exactly for the forbidden pattern (null pointer or spare value), which is also what writing an absent value produces, and a present value has the same representation as the bare value. Tagged optionals convert to and from standard optionals without changing the payload, dropping it exactly once.",
 ["inputs","histories"],"All types of the library with a niche (and derived ones), absent plus all sample payloads, in both directions, as fields, arguments and returns; tagged optionals over all small operation sequences.",
 "The only option test checks one tagged conversion; the niche test covers one enum.",
 ["src/layout/niche.rs","src/layout/impls.rs","src/option.rs","src/tuple.rs","src/proc_macro/derives/repr_c/enum_.rs","src/slice.rs","src/char_p.rs"],["HasNiche","Option<T>: ReprC","TaggedOption"],["raw bytes of Option values"])
p("C12","Exported functions behave as their Rust bodies, and panics never cross into C",
 "Calling an exported function through its C symbol, under its declared or renamed name, passes every argument and result unchanged and runs the body exactly once, for every supported parameter count and type. A panic in the body aborts the process instead of unwinding into the caller, and in builds with debug assertions an argument with an illegal bit pattern is caught before the body runs.",
 ["inputs","programs","fault_sequences"],"All exported signatures of a generated family (argument counts, type classes, receivers of closures, structs, strings, renames) x sample values; a panic at every point of the call, including while dropping arguments.",
 "One C program calls a dozen functions with one value each; a panicking export is never tested because it must abort.",
 ["src/proc_macro/ffi_export/fn_/mod.rs","src/proc_macro/ffi_export/fn_/args.rs","src/utils/_mod.rs","src/_lib.rs"],["ffi_export","abort-on-unwind guard","__assert_concrete__"],["C callers linked against the exported symbols","subprocess exit status"])
p("C13","The generated C header describes exactly the ABI that Rust implements",
 "For every exportable item the generated C header is valid C and C++ that compiles on its own, and each type it defines has the size, alignment, field order, field offsets and signedness of the Rust type, each enumerator and constant the Rust value, and each function the name, parameters and return type needed to call it. A C program built from the header exchanging values with Rust sees the same values on both sides.",
 ["programs","inputs"],"All types of a generated family (scalars x pointers x arrays x structs x enums of every width x function pointers x closures x tuples x optionals x nesting up to a bound) and all their uses as fields, parameters, returns and constants, in every naming style.",
 "The repository compares the output with nothing: the test only writes one header and compiles one C file using a third of it.",
 ["src/headers/_mod.rs","src/headers/languages/c.rs","src/headers/languages/mod.rs","src/layout/impls.rs","src/layout/_mod.rs","src/proc_macro/derives/repr_c/enum_.rs","src/proc_macro/derives/repr_c/struct_.rs","src/proc_macro/ffi_export/const_.rs"],["C language backend","CType name/definition functions","emit functions"],["generated header compiled by gcc and clang"])
p("C14","Headers define everything once, before use, or fail loudly",
 "For every set of exported items, order, target language and configuration, header generation emits each exported item and each type it reaches exactly once and before its first use, with the requested banner, guard and preamble, the same bytes on every run. Two different items claiming one name or a failing output are reported as errors, never silently truncated output.",
 ["programs","configurations","fault_sequences"],"All small dependency graphs of types, all definition orders of a bounded item set, all builder configurations, and an output fault injected at every single write.",
 "The test generates one fixed crate's headers in one configuration to a healthy file and never inspects them.",
 ["src/headers/_mod.rs","src/headers/definer.rs","src/headers/languages/mod.rs","src/_lib.rs"],["Builder","Definer","HashSetDefiner","hide_items/stable ordering"],["generated text parsed back","faulty io::Write"])
p("C15","The generated C# declarations match the ABI that Rust implements",
 "For every exportable item the generated C# source declares each type with the field order, widths, signedness, array lengths, enum underlying type and enumerator values of the Rust type, and each function with the exported entry point, calling convention, parameter order and blittable types of the same size. Names referenced are declared in the same file.",
 ["programs"],"All types and functions of the same generated family as for the C header, structurally compared after parsing the C# text back.",
 "No C# compiler is exercised by the stable tests and the text is never inspected.",
 ["src/headers/languages/csharp.rs","src/headers/_mod.rs","src/layout/impls.rs"],["CSharp language backend"],["generated C# text parsed back"])
p("C16","The generated Python declarations match the ABI that Rust implements",
 "For every exportable item the generated Python (cffi) declarations are accepted by cffi, and each type they define has the size, alignment, field offsets and enumerator values of the Rust type, each function the exported name and signature, so that calling it through cffi exchanges the same values.",
 ["programs","inputs"],"All types and functions of the same generated family as for the C header, loaded through cffi.",
 "No test loads the generated declarations into cffi.",
 ["src/headers/languages/python.rs","src/headers/_mod.rs","src/layout/impls.rs"],["Python language backend"],["generated text loaded by cffi"])
p("C17","Programs that would break the FFI contract are rejected at compile time",
 "A type or function that cannot honour the FFI contract is refused by the compiler: no repr, unsupported repr, fields or parameters that are not FFI-compatible, data-carrying enums, non-C function pointers, by-value opaque types, closures or objects lacking the thread-safety they are declared with, lifetimes that outlive their borrow, interior NULs in literal C strings. The corresponding well-formed program is accepted.",
 ["programs"],"All programs of a bounded grammar (item shape x repr x field/parameter type x markers), each predicted accept or reject by a reference table.",
 "Four compile-fail doc tests cover four programs.",
 ["src/proc_macro/derives/repr_c/_mod.rs","src/proc_macro/derives/repr_c/struct_.rs","src/proc_macro/derives/repr_c/enum_.rs","src/proc_macro/derives/handle_fptr.rs","src/proc_macro/ffi_export/fn_/mod.rs","src/proc_macro/c_str.rs","src/layout/_mod.rs","src/closure/arc.rs","src/closure/boxed.rs","src/dyn_traits/_mod.rs"],["derive_ReprC","ffi_export","trait bounds and Send/Sync impls"],["rustc acceptance"])
p("C18","JavaScript bindings exchange the same values and own them once",
 "Values passed between JavaScript and Rust through the generated bindings arrive unchanged, owned values are freed exactly once, and errors surface as JavaScript exceptions.",
 ["inputs","histories","schedules"],"All exported signatures of a family x sample values x promise/callback schedules.",
 "The bindings need a live JavaScript engine; no stable test exercises them.",
 ["src/js/_mod.rs","napi-dispatcher/nodejs-derive/src/lib.rs","src/proc_macro/derives/c_type/js.rs"],["ReprNapi","js closures"],["node addon"])
p("C19","Documentation reaches the header beside its item and never alters declarations",
 "Whatever documentation is written on an exported item, its fields, variants or methods (line, block or attribute form, any text, in any sequence), the C and C# headers show that text, line by line, in front of that item's declaration and of no other. Apart from comments, every generated header is the one generated without any documentation.",
 ["programs","inputs"],"All sequences up to a length of an alphabet of documentation attributes with hostile texts (comment delimiters, line separators, escapes, markup), on every position of every kind of item.",
 "The tests' docs are a few plain lines, and no test compares header text.",
 ["src/proc_macro/utils/_mod.rs","src/headers/languages/c.rs","src/headers/languages/csharp.rs","src/headers/languages/python.rs","src/proc_macro/derives/c_type/struct_.rs","src/proc_macro/derives/repr_c/enum_.rs","src/proc_macro/ffi_export/fn_/mod.rs","src/proc_macro/ffi_export/const_.rs"],["extract_docs","emit_docs"],["comments of the generated header","its tokens without comments"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import os
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    s=x['statement']
    n=s.count('. ')+1
    if n>3: print(x['id'],'sentences',n)
    for f in x['anchors']['files']:
        if not os.path.exists('/repo/'+f): print('missing',x['id'],f)
