"""technique and level_note per property."""
B = ("bounded exhaustive model checking of the real code: every operation sequence up to a depth, from every origin, "
     "compared step by step with a reference model")
TEXT = {
    "C01": (B, "All histories within the reported bounds were executed on the real Bytes, with and without stabby; the reference is a Vec<u8>. Trusts the harness's model and rustc; lengths above 70 bytes and deeper histories are not covered."),
    "C02": (B + " under a tracking allocator and recording retain/release tables", "As C01; ownership is observed through foreign retain/release callbacks, Arc counts and an allocator that checks layouts, double frees, use after free (poison) and leaks."),
    "C03": (B + " that observes every allocation", "As C01; allocation is observed at the global allocator of the thread."),
    "C04": ("stateless model checking of the real code: every program of 2-3 threads with a few operations each (use, clone, slice, split, downcast, drop, raw retain/release, spawn, poll, wake) on handles of every kind, under a controlled scheduler that enumerates every schedule up to a preemption bound at every atomic operation and futex call, with a happens-before race detector, an allocator that reports use after free, double frees and leaks, and a model of who holds what", "All library code and the atomics it uses are instrumented by the compiler (-Zsanitizer=thread callbacks) and scheduled; interleavings are sequentially consistent (weak-memory reorderings show as data races, not as values). Preemptions: 2-3 (thorough: up to 5). stabby's own reference counts use relaxed operations only and are taken for acquire-release."),
    "C05": ("bounded exhaustive model checking of the real code: every sequence of calls, clones, releases and conversions up to a depth, for every arity and closure type, through the Rust methods and the raw C struct, against a counting model", "All arities 0-9, nine combinations of environment and result type, closures made by Rust and by C; panicking closures are excluded (undefined behaviour by design)."),
    "C06": ("bounded exhaustive model checking of the real code: every sequence of calls, clones, releases and conversions up to a depth, on virtual objects of ten trait shapes made from every pointer type, through Rust and the raw vtable, against a model of objects and owners", "Traits: every receiver kind, by-value aggregates, owned and borrowed arguments, default and overridden methods, generics over lifetimes, virtual objects as arguments and results, with and without Clone and Send/Sync. Panicking methods are excluded (undefined behaviour by design)."),
    "C07": ("bounded exhaustive model checking of the real code: every sequence of polls, wake-ups, conversions and drops up to a depth on future objects of every origin; every schedule (tasks, blocked-on futures, wake-ups, spurious polls, cancellations, early returns, shutdown) of fifteen spawn/await/block_on programs under a model executor behind the real FFI vtable; and every completion order and shutdown of small task sets under the real tokio implementation", "Up to 3 tasks with up to 2 suspensions each, 4 ways of waking (waker, kept waker, the two exported helper functions). Tokio's own scheduling is not controlled: its completion orders are. Single-threaded interleavings: the code has no synchronisation of its own here."),
    "C08": ("bounded exhaustive model checking of the real code: every sequence of conversions, mutations (returning or panicking), clones, moves and drops up to a depth, for every container, element kind and origin, against a model of elements, addresses and capacities under a checking allocator", "Elements: bytes, C structs owning memory, over-aligned and zero-sized opaque types. Sequences longer than the bound and more than two containers at once are not covered."),
    "C09": ("bounded exhaustive model checking of the real code: every text up to a length over an alphabet with NUL and multi-byte letters, every constructor, then every operation sequence up to a depth, against a model under a checking allocator", "Texts up to 6 (thorough 8) letters exhaustively, plus every length up to 70 with NULs at every position; invalid UTF-8 as C strings."),
    "C10": ("bounded exhaustive model checking of the real code: for every type of a zoo, every bit pattern (leaves) or every combination of representative patterns of its parts (aggregates) is given to is_valid, from_raw and, with debug assertions, from_raw_unchecked, and compared with a hand-written specification", "8 and 16 bit types exhaustively, 32 bit enums exhaustively in the thorough tier, 64 bit ones at and around their values; pointers at every small misalignment. UTF-8 and pointee validity are not something the check is documented to detect."),
    "C11": ("bounded exhaustive model checking of the real code: every bit pattern of the zoo read as an optional value, then every sequence of operations up to a depth on optional owners and tagged optionals, against std's Option under a checking allocator", "Niche types of std and stabby, nine owning containers, tagged optionals of an owning vector."),
    "C12": ("bounded exhaustive enumeration of programs and faults: every signature of a family is compiled with the real macro and called through its C symbol by a C program that knows nothing of safer_ffi, and every argument, the result and the number of runs of the body are compared; every illegal pattern of every argument (builds with debug assertions) and a panic at every point of a call are injected in a child process that has to abort", "40 type classes, arities 0-12, all pairs, triples of 8 (thorough 18) classes, ten ways of writing a function, async functions; x86-64 Linux."),
    "C13": ("bounded exhaustive enumeration of programs: every type of a grammar (each scalar, enum of every width and discriminant form, field combination, pointer form, array length, function arity, container, closure kind, and every nesting of 14 type constructors up to a depth) is compiled into a library with the real macros, and the header it generates is checked against the facts rustc reports: compiled alone under six C/C++ dialects, statically asserted (sizes, offsets, types, signedness, enumerators, constants) against an independent declaration of each type, and executed in exchange programs that pass every leaf value both ways", "x86-64 Linux only; nesting depth 2 (thorough: 3), arity up to 12, values from a few seeds per type (the exchange programs are on top of the exhaustive structural comparison)."),
    "C14": ("bounded exhaustive model checking of the real code: every sequence of exported items up to a length is loaded, item by item, into a process of its own, and the header generated in every state, in every language and order mode, is compared with the union of what its items give alone (each declaration once, before its use, same bytes for every order of definition); every output fault at every write and after every byte; every builder configuration; every pair of a list of items that claim one name; and every type of a grammar against every other that has its name", "20 items that share types in every way the library offers (structs, arrays, callbacks, slices, closures, virtual objects, generics, renames, constants); sequences of 3 (thorough 4). The declarations of an item alone are compiled (C, C++) or parsed by the C# reader; their truth is C13, C15 and C16."),
    "C15": ("bounded exhaustive enumeration of programs: for every type of the grammar of C13 the generated C# source is read back with a model of the C# declaration rules and of the P/Invoke marshaler, and every type, field, enumerator, parameter, result, entry point and constant is compared with the facts rustc reports", "No C# compiler is available: the reader (lib/csharp.py) models the language and the marshaler, and everything it does not know is reported. 64-bit targets."),
    "C16": ("bounded exhaustive enumeration of programs: for every type of the grammar of C13 the generated Python declarations are given to cffi, which reports each type's size, alignment, offsets and enumerators, compared with the facts rustc reports, and exchanges every leaf value with the library by calls through cffi, in ABI mode and in an API-mode module compiled next to the C header", "cffi 2.1 and CPython 3.12 on x86-64 Linux; the same bounds as C13."),
    "C17": ("bounded exhaustive enumeration of programs: every program of nine grammars (types in every position, item shape x repr, exported items, C string literals, pointer coercions to virtual objects, trait shapes, thread and lifetime conversions, futures) is given to rustc, whose verdict is compared with that of a reference model", "Types: 60 leaves, 19 constructors, nesting 2, nine positions. rustc's type checker is the execution explored; quick checks one feature set, thorough five."),
    "C19": ("bounded exhaustive enumeration of programs: every sequence of documentation attributes up to a length, over an alphabet of forms and hostile texts, in every position of every kind of item, is compiled with the real macros; the generated headers, without their comments, are compared token by token with those of the undocumented program, and the comment in front of each name with the text of the attributes", "23 positions; all sequences of at most 1 of 19 attributes and 2 of the first 10 (thorough: 2 of 19, 3 of the first 10). Indentation, blank lines at either end, and how delimiters of comments are escaped are left open. Function parameters have no docs in Rust; docs of types behind non-exported aliases are not checked."),
}
NOT_APPLICABLE = {
    "C18": "The js feature needs a git fork of napi-rs and a JavaScript engine binding that cannot be fetched or built offline, so no execution of it can be explored here.",
}
NOTES = "See DESIGN.md."
