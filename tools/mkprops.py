#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe=None):
    a = {"files": files, "mechanism": [{"name": mechanism, "where": ", ".join(files[:3])}]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Values cross the bridge unchanged in both directions",
  "For every type the bridge can express and every value of it, a value sent across the language boundary as an argument, receiver, return value, struct field or callback argument is observed on the other side equal to the value that was sent, in both directions. Mutations made through a mutable reference, pinned reference, mutable slice or mutable container reference by the callee are exactly what the caller observes afterwards, and references passed through come back referring to the same object.",
  ["programs", "inputs"], "all bridge declarations (types x positions x argument counts x directions) and all values, including extreme integers, NaN payloads, empty and large containers, non-ASCII and NUL-containing text",
  "The existing FFI test calls each hand-written function once with one fixed small value; it covers one signature per type and never combinations of argument positions, indirect returns, nested structs or extreme values.",
  ["macro/src/expand.rs", "gen/src/write.rs", "src/rust_string.rs", "src/rust_vec.rs", "src/rust_slice.rs", "src/cxx.cc", "include/cxx.h"],
  "per-type argument/return lowering decided independently by the macro and the C++ writer: by value, indirect via pointer, out-parameter, manually-dropped")
p("C02", "Objects crossing the bridge are destroyed exactly once",
  "Every Rust value and every C++ object whose ownership is passed or returned across the boundary (by value, in a box, smart pointer, string, vector, struct field, callback argument or error) is dropped or destructed exactly once over the life of the program, by its own language's destructor; nothing is leaked and nothing is destroyed twice. This holds on normal returns, on error returns and exceptions, and through container growth, truncation, moves and copies.",
  ["programs", "inputs", "histories"], "all declarations that transfer ownership and all sequences of construct/copy/move/transfer/fail/destroy operations on both sides",
  "Tests only look at values; a leak or double drop on one ownership path (e.g. the error path of one return type) leaves every assertion passing.",
  ["macro/src/expand.rs", "gen/src/write.rs", "src/cxx.cc", "include/cxx.h", "src/symbols/rust_vec.rs", "src/unique_ptr.rs", "src/shared_ptr.rs"],
  "ManuallyDrop/MaybeUninit on one side paired with placement new/destructor calls on the other")
p("C03", "Safe use of the library never causes undefined behaviour",
  "A program that uses the bridge only through safe Rust and through the documented C++ interface within its documented preconditions never performs an invalid, out-of-bounds, misaligned, use-after-free or uninitialised memory access, mismatched allocation, or other undefined behaviour, on either side of the boundary, for any sequence of operations.",
  ["programs", "inputs", "histories"], "all operation sequences over the runtime types (strings, slices, vectors, boxes, smart pointers, errors, shared and opaque types), including empty, zero-length, moved-from, null and maximally aligned cases",
  "Undefined behaviour usually yields the right answer in a test run; the test suite is not run under any memory or undefined-behaviour instrumentation.",
  ["src/cxx.cc", "include/cxx.h", "src/rust_string.rs", "src/rust_vec.rs", "src/rust_slice.rs", "src/rust_str.rs", "src/symbols", "src/cxx_vector.rs", "src/cxx_string.rs", "macro/src/expand.rs"],
  "transmuted fat pointers and container headers, manually managed lifetimes, raw placement construction")
p("C04", "The C++ view of Rust strings is an exact UTF-8 string type",
  "From C++, Rust strings and string slices can be built from a byte range exactly when it is valid UTF-8 (otherwise an exception is thrown and nothing is created), from UTF-16 exactly when it is well-formed, and lossily with the same replacement characters Rust itself would produce. Length, bytes, iteration, copying, moving, capacity reservation, NUL-terminated access, stream output, conversion and equality behave as those of the same byte sequence, and ordering between strings is the same ordering Rust gives the same strings.",
  ["inputs", "histories"], "all byte and UTF-16 sequences and all sequences of string operations",
  "The tests convert a handful of ASCII literals and compare two or three pairs; validation boundaries, surrogates, non-ASCII ordering and operation sequences are not reached.",
  ["src/cxx.cc", "include/cxx.h", "src/symbols/rust_string.rs", "src/symbols/rust_str.rs", "src/rust_string.rs"],
  "C++ class over a Rust String header, each operation forwarded to a Rust symbol or done on raw bytes")
p("C05", "The C++ view of a Rust vector behaves as a sequence",
  "From C++, a Rust vector of any supported element type behaves under every sequence of construction, insertion at the end, in-place construction, reservation, truncation, clearing, element access, iteration, sorting, copying, moving, swapping and assignment exactly as the corresponding mathematical sequence; checked access outside the bounds throws and changes nothing. Reserved capacity is honoured, copies are independent of the original, and Rust sees the same elements in the same order.",
  ["inputs", "histories"], "all element types (primitives, strings, string slices, shared structs of any size and alignment, opaque Rust types) and all operation sequences",
  "Existing tests perform one short scripted sequence for one or two element types.",
  ["include/cxx.h", "src/cxx.cc", "src/symbols/rust_vec.rs", "gen/src/write.rs", "macro/src/expand.rs"],
  "templated C++ class whose primitive operations are per-type symbols emitted by library or generated code")
p("C06", "C++ slices are faithful bounds-checked random-access ranges",
  "A slice seen in C++ denotes exactly the elements of the Rust slice it came from, and a slice built in C++ arrives in Rust with the same elements at the same address; checked access throws exactly when the index is out of bounds. Its iterators satisfy all random-access iterator laws for every element size (including opaque Rust types whose size C++ does not know statically), so that standard algorithms yield the same result as on a copy of the elements, and empty slices are always usable.",
  ["inputs", "histories"], "all element types and sizes, all lengths including zero, all iterator arithmetic and comparison combinations",
  "Existing tests index and sort a four-element slice of two types.",
  ["include/cxx.h", "src/cxx.cc", "src/rust_slice.rs", "gen/src/builtin.rs"],
  "fat pointer shared between languages, iterator with runtime stride")
p("C07", "The Rust view of a C++ string preserves its exact bytes",
  "From Rust, a C++ string exposes exactly its bytes for any content; converting it to a Rust string succeeds exactly when the bytes are valid UTF-8 and otherwise substitutes replacement characters as Rust's own lossy conversion does, and its display, debug, equality, ordering and hashing agree with those byte/string semantics. Pushing, clearing, reserving and stack construction through Rust have the effect the same operation has on a C++ string.",
  ["inputs", "histories"], "all byte sequences (including embedded NUL and malformed UTF-8) and all operation sequences",
  "Unit tests cover a few fixed strings; malformed-sequence classes and mutation sequences are not sampled.",
  ["src/cxx_string.rs", "src/lossy.rs", "src/cxx.cc"],
  "opaque reference type with shims for data/length/push/reserve; hand-written lossy UTF-8 decoder")
p("C08", "The Rust view of a C++ vector is bounds-safe and exact",
  "From Rust, a C++ vector reports exactly the length and elements it has, checked access returns an element exactly for in-range indices, shared and mutable iteration visit every element exactly once in order with exact size hints (also from partially consumed iterators), and slices alias the elements in place. Pushing and popping through Rust have the same effect as the C++ operations for every element type that permits them.",
  ["inputs", "histories"], "all element types (primitives, C++ strings, shared structs of any layout, opaque C++ types) and all operation sequences and lengths",
  "Existing tests iterate one small vector of each of a few types and push or pop once.",
  ["src/cxx_vector.rs", "gen/src/write.rs", "macro/src/expand.rs", "src/cxx.cc"],
  "per-element-type accessor symbols over an opaque vector")
p("C09", "Unique pointers own at most one object and forward to it",
  "A unique pointer crossing the boundary either is null or owns exactly one object; construction, taking, releasing to a raw pointer, rebuilding from it, dereferencing and dropping track that ownership exactly, in either language. Its formatting, comparison, hashing and input/output traits are exactly those of the pointee, with null comparing equal only to null and dereferencing null reported as a panic rather than undefined behaviour.",
  ["inputs", "histories"], "all pointee types (strings, vectors, shared structs, opaque C++ types) and all sequences of ownership operations",
  "Tests construct and drop a few pointers and test a handful of trait impls.",
  ["src/unique_ptr.rs", "gen/src/write.rs", "macro/src/expand.rs", "src/cxx.cc"],
  "pointer-sized representation shared with C++ plus per-type shims")
p("C10", "Shared and weak pointers keep exact reference counts",
  "Cloning, dropping, downgrading, upgrading, moving across the boundary and assigning shared and weak pointers from Rust change the C++ strong and weak counts exactly as the corresponding C++ operations do; the pointee stays alive while any strong pointer exists, is destroyed exactly once when the last one goes, and upgrading a weak pointer yields the object exactly while it is alive and null afterwards. Comparison, formatting and hashing of shared pointers are those of the pointee, with null handled without undefined behaviour.",
  ["inputs", "histories"], "all pointee types (primitives, strings, shared structs, opaque types) and all interleaved sequences of pointer operations from both languages",
  "Tests check one clone/drop/upgrade scenario on one type.",
  ["src/shared_ptr.rs", "src/weak_ptr.rs", "src/cxx.cc", "gen/src/write.rs", "macro/src/expand.rs"],
  "two-word representation shared with the C++ standard library, per-type clone/drop/upgrade shims")
p("C11", "C++ exceptions arrive in Rust as errors with their message",
  "A C++ function bound as fallible that throws yields an error in Rust whose message is the thrown exception's text (with invalid UTF-8 replaced), and one that does not throw yields exactly its return value; a bridge that supplies its own exception translation has exactly that translation applied. Exceptions never escape into Rust frames: when thrown from a function not bound as fallible, or not translated, the process terminates.",
  ["inputs", "programs", "histories"], "all exception types and message bytes, all return types, nesting depths, repeated and concurrent failures",
  "Tests throw one fixed logic_error from one return type each.",
  ["gen/src/write.rs", "macro/src/expand.rs", "src/result.rs", "src/exception.rs", "src/cxx.cc", "src/symbols/exception.rs"],
  "catch block producing a tagged pointer/length result decoded in Rust")
p("C12", "Rust errors arrive in C++ as exceptions with their message",
  "A Rust function bound as fallible that returns an error makes the C++ caller observe an exception of the library's error type whose text equals the error's display output, for every return type and message; one that succeeds returns exactly its value without throwing. The exception object keeps its text through any sequence of copies, moves and assignments, and copies are independent.",
  ["inputs", "programs", "histories"], "all error messages and return types, all sequences of copying, moving, rethrowing and storing the exception",
  "Tests fail one function with one message and read it once.",
  ["gen/src/write.rs", "macro/src/expand.rs", "src/result.rs", "src/cxx.cc", "include/cxx.h"],
  "error text boxed in Rust, handed to C++ as a length-counted string owned by the exception")
p("C13", "A Rust panic never unwinds into C++",
  "Whenever Rust code invoked from C++ panics - in a free function, method, fallible function, callback, destructor, comparison operator or hash - the process logs the panic and aborts instead of unwinding through or returning into C++ code, regardless of panic payload and of what the caller was doing.",
  ["programs", "inputs", "histories"], "all kinds of entry point from C++ into Rust, all panic payloads, and states such as panicking while an exception is in flight or inside nested calls",
  "No existing test panics across the boundary, since doing so kills the test process.",
  ["src/unwind.rs", "macro/src/expand.rs", "src/symbols/rust_vec.rs"],
  "abort-on-drop guard around each generated entry point")
p("C14", "Runtime operations are safe from any number of threads",
  "Distinct threads may concurrently clone, drop, downgrade and upgrade pointers to one shared object, and concurrently create, convert, raise and handle strings, vectors, boxes and errors of their own, without data races; counts end exact, the object is destroyed exactly once, and each thread sees only its own results and error messages.",
  ["schedules", "histories"], "all thread interleavings of shared-pointer operations and of independent per-thread use of every other runtime facility",
  "Existing tests are single-threaded with respect to shared objects.",
  ["src/shared_ptr.rs", "src/weak_ptr.rs", "src/cxx.cc", "src/exception.rs", "gen/src/write.rs"],
  "atomic reference counts of the C++ library reached via shims; no other shared mutable state allowed")
p("C15", "Opaque types cannot be moved, copied, or sent unless declared so",
  "In Rust an opaque C++ type is never usable by value, has no size-based guarantees, is neither sendable nor shareable across threads and is not freely movable unless the user asserts so; smart pointers and containers of it are sendable or shareable exactly when ownership semantics make that sound for the element. In C++ an opaque Rust type cannot be constructed, copied, moved, assigned, destroyed or derived from by user code.",
  ["programs"], "all opaque type declarations and every generic wrapper around them, with all combinations of thread-safety of the pointee",
  "A handful of compile-fail cases exist; the matrix of wrapper x pointee x capability is not covered, and a wrongly added capability breaks no test.",
  ["src/opaque.rs", "src/unique_ptr.rs", "src/shared_ptr.rs", "src/weak_ptr.rs", "src/cxx_vector.rs", "src/extern_type.rs", "macro/src/expand.rs", "gen/src/write.rs"],
  "marker fields and conditional marker trait impls; deleted members in the generated class")
p("C16", "Shared structs have identical layout in both languages",
  "For every shared struct, the size, alignment and offset of every field, and of every nested struct, array and enum in it, are the same in the Rust type and in the generated C++ type, in whatever order the structs are declared. Arrays, slices and containers of such structs therefore step identically on both sides.",
  ["programs"], "all shared struct declarations (field types, orders, nesting, arrays, alignment attributes, namespaces and renamed fields)",
  "Tests contain a few small structs and only look at values.",
  ["macro/src/expand.rs", "gen/src/write.rs", "syntax/toposort.rs", "syntax/atom.rs"],
  "two independent emitters of the same C-layout struct")
p("C17", "Operators and derives on shared types agree across languages",
  "For shared structs and enums, equality, inequality, ordering and hashing requested by derive give in C++ exactly the answer Rust's own derived implementation gives for the same values, and in Rust the requested clone, copy, debug, default, equality, ordering and hash implementations are those Rust's standard derives would provide, for all values including ones C++ invented.",
  ["programs", "inputs"], "all combinations of derives and field types and all pairs of values, including incomparable floats and enum values without a named variant",
  "Tests compare one pair of equal and unequal values of one struct.",
  ["macro/src/derive.rs", "macro/src/expand.rs", "gen/src/write.rs", "syntax/derive.rs"],
  "hand-expanded trait impls; C++ operators forwarding to Rust symbols, with derived complements (!=, <=, >=)")
p("C18", "Shared enum values agree with Rust's discriminant rules",
  "For every shared enum declaration, each variant has in Rust and in C++ exactly the value Rust's rules assign (explicit, negative, implicitly incremented, or typed by a suffix or repr attribute), and the underlying type is the requested one or the smallest that fits; declarations whose values do not fit or overflow are rejected rather than wrapped. Any value of the underlying type, named or not, survives a round trip unchanged.",
  ["programs", "inputs"], "all enum declarations (repr, literals in every base, sign, suffix, implicit increments, boundaries) and all values of the underlying type",
  "Tests contain a few enums with small positive values.",
  ["syntax/discriminant.rs", "syntax/parse.rs", "macro/src/expand.rs", "gen/src/write.rs"],
  "a re-implementation of discriminant assignment and repr inference shared by both emitters")
p("C19", "Every accepted bridge compiles, links and resolves names as declared",
  "If the tools accept a bridge declaration, the generated C++ and the expanded Rust both compile without warnings and link with each other: every function, type and member is reachable in C++ under exactly the declared namespace and name and in Rust under the declared name. Distinct functions, methods, overloads and types - in one bridge or in several bridges of one program - never collide or get mixed up.",
  ["programs", "configurations"], "all accepted bridge declarations: type combinations, declaration order, nested namespaces, renames, overloads, keyword-like names, several bridges per program",
  "Tests build a single fixed set of bridges.",
  ["gen/src/write.rs", "gen/src/builtin.rs", "gen/src/include.rs", "macro/src/expand.rs", "syntax/mangle.rs", "syntax/symbol.rs", "syntax/toposort.rs", "syntax/instantiate.rs", "syntax/types.rs"],
  "symbol names computed independently by two generators; on-demand emission of builtin support code and forward declarations")
p("C20", "Unsound or unsupported declarations are rejected",
  "Declarations that would let safe code misuse memory or that the bridge cannot represent - opaque types by value, unpinned mutable references to opaque C++ types, unsupported element or pointee types, safe functions that take raw pointers or involve unconstrained lifetimes, undeclared or conflicting Rust names, cyclic structs, missing unsafety markers and the like - are always reported as errors at the declaration, whatever position or nesting they appear in and whatever else the bridge contains. Sound declarations next to them are not rejected, and the Rust macro and the C++ generator do not disagree in a way that lets an unsound bridge build.",
  ["programs"], "all declarations: each rule crossed with every position, nesting and surrounding context",
  "The compile-fail tests exercise each rule in one fixed position.",
  ["syntax/check.rs", "syntax/parse.rs", "syntax/types.rs", "syntax/trivial.rs", "syntax/ident.rs", "syntax/attrs.rs", "macro/src/expand.rs"],
  "a shared checker over the parsed declarations plus assertions emitted into the expansion, so that rustc completes the rules")
p("C21", "Code generation is total and deterministic",
  "For any input text the C++ generator terminates with either generated code or a diagnostic that locates the problem in the input; it never crashes. The same input always yields byte-identical output, and output does not depend on formatting, comments outside documentation, or the presence of unrelated items in the file.",
  ["inputs", "configurations"], "all source texts, valid, invalid or truncated, and all generator options",
  "Existing tests generate code for a few fixed valid inputs and error messages for fixed invalid ones.",
  ["gen/src/mod.rs", "gen/src/error.rs", "gen/src/file.rs", "gen/src/write.rs", "gen/lib/src/lib.rs", "syntax/parse.rs", "syntax/report.rs", "syntax/set.rs", "syntax/map.rs"],
  "parser, checker and writer over user-supplied token streams with ordered collections")
p("C22", "Generated headers are self-contained and safely repeatable",
  "Every generated header compiles on its own in every supported C++ standard, may be included any number of times, in any order, together with the library header and with other generated headers, and from any number of translation units linked together, without redefinition, missing declaration or mismatch. The declarations it offers are the ones its source file defines.",
  ["programs", "configurations"], "all accepted bridges, include orders, C++ standards, compilers and header/source combinations",
  "Tests include two generated headers in one order under one standard and compiler.",
  ["gen/src/builtin.rs", "gen/src/ifndef.rs", "gen/src/include.rs", "gen/src/write.rs", "include/cxx.h"],
  "guarded copies of the library's classes emitted on demand in each output")
p("C23", "Conditional items exist in C++ exactly when they exist in Rust",
  "For every conditional-compilation predicate on a bridge item, member or block and every configuration, the generated C++ contains the item exactly when Rust compiles it in that configuration, in every generator front end. When the configuration needed to decide is not known, an error is reported instead of guessing.",
  ["programs", "configurations"], "all predicate expressions (any nesting of all/any/not, names and key-values, true/false literals) on all item kinds, and all configurations",
  "Tests evaluate a few predicates in a single configuration.",
  ["syntax/cfg.rs", "gen/src/cfg.rs", "gen/build/src/cargo.rs", "gen/cmd/src/cfg.rs", "syntax/attrs.rs", "syntax/file.rs"],
  "a re-implementation of predicate parsing and evaluation, fed from command line flags or the build environment")
p("C24", "The command line generator does exactly what its options say",
  "For every combination of input, header/source selection, repeated outputs, include flags, annotation and configuration options, the command line tool writes to each requested destination exactly the requested artefact, the same as the library front ends produce for that input, and nothing else. Invalid invocations, unreadable inputs and unwritable outputs give a nonzero exit and a message.",
  ["configurations", "inputs", "fault_sequences"], "all combinations of options, numbers and kinds of outputs, and file-system faults",
  "The tests pin the help text only.",
  ["gen/cmd/src/main.rs", "gen/cmd/src/app.rs", "gen/cmd/src/output.rs", "gen/cmd/src/cfg.rs", "gen/src/mod.rs", "gen/src/fs.rs"],
  "argument parsing and output routing around the generator")
p("C25", "Build-script runs leave a correct, stable, contained output tree",
  "After a build script has generated bridges, every generated header and source and every header of the crate is reachable through the reported include directories under its documented path, with current contents, whatever was left behind by earlier, interrupted or simultaneous runs. Re-running with unchanged inputs leaves the contents and modification times of generated files untouched, changed inputs update exactly the affected files, and nothing is written outside the output and shared target directories.",
  ["histories", "fault_sequences", "schedules", "configurations"], "all sequences of (re)builds, edits, leftovers, concurrent build scripts, directory layouts and input path shapes",
  "No existing test runs the build-script front end on more than the default layout once.",
  ["gen/build/src/lib.rs", "gen/build/src/out.rs", "gen/build/src/paths.rs", "gen/build/src/target.rs", "gen/build/src/vec.rs"],
  "content-compared writes, removed-and-recreated symlinks, best-effort relative links")
p("C26", "Header directories propagate between crates as configured",
  "A crate sees the headers of exactly itself, the crates it directly depends on, and the directories, prefixes and link names those crates chose to re-export, each under its configured include prefix and in a stable order; nothing else becomes includable through the bridge's directories, and a directory reachable through several dependencies is offered once. Invalid configuration is reported as an error rather than silently ignored.",
  ["configurations", "inputs"], "all dependency environments, prefixes, re-export lists and their orders",
  "No existing test sets any of the configuration or dependency variables.",
  ["gen/build/src/lib.rs", "gen/build/src/cfg.rs", "gen/build/src/deps.rs", "gen/build/src/intern.rs"],
  "metadata exchanged through build-script environment variables")
p("C27", "Types shared between bridges must have the same C++ identity",
  "Reusing a type from another bridge or from hand-written bindings is accepted exactly when the namespace and name declared on both sides denote the same C++ type and the declared kind permits the use; passing such a type by value is accepted only for types declared trivially movable, and in C++ is verified to be so. A value of such a type created through one bridge is usable through the other.",
  ["programs"], "all pairs of identities (namespaces, nested, renamed, similar-looking names) and all uses (reference, by value, in containers, in smart pointers)",
  "Compile-fail tests cover one mismatched pair.",
  ["src/extern_type.rs", "macro/src/type_id.rs", "macro/src/expand.rs", "gen/src/write.rs", "syntax/trivial.rs"],
  "type identity encoded as a type-level string compared by the compiler; static assertions in C++")
p("C28", "Borrowing, lifetimes and unsafety are preserved in signatures",
  "The Rust signature exposed for a bound C++ function, and the one required of a bound Rust function, carry exactly the declared borrow relations, lifetimes, mutability and unsafety: safe code cannot keep a returned borrow beyond the value it borrows from, alias a mutable borrow, or call an unsafe function without an unsafe block, and an implementation whose signature promises something else does not compile.",
  ["programs"], "all signatures: receivers, elided and named lifetimes, references, slices, strings, pinned references, structs and opaque types with lifetimes, in arguments, returns and results",
  "Compile-fail tests cover only a few signatures; a lost lifetime or unsafety marker makes more programs compile, which no passing test notices.",
  ["macro/src/expand.rs", "macro/src/generics.rs", "syntax/tokens.rs", "syntax/impls.rs", "syntax/types.rs"],
  "re-emission of the declared signature around raw calls with transmuted lifetimes")
p("C29", "Boxes and function values work from C++ as owned Rust objects",
  "From C++, a Rust box always refers to one live Rust value with stable address: constructing (from a value, in place, or from a raw pointer), moving, swapping, copying where offered, assigning, releasing and dropping it do to that value exactly what its Rust counterpart would. A Rust function passed to C++ as a callable invokes that very function, any number of times, at any later time and from copies, with arguments and results unchanged.",
  ["inputs", "histories"], "all box target types and operation sequences; all callback signatures and call histories",
  "Tests create one box and invoke each callback once.",
  ["include/cxx.h", "gen/src/write.rs", "macro/src/expand.rs", "src/function.rs"],
  "owning raw pointer wrapper with per-type alloc/dealloc/drop symbols; trampoline pair with erased function pointer")
p("C30", "Reduced and extended configurations keep every guarantee",
  "The guarantees do not depend on how the library is configured. With only the alloc feature, used from #![no_std] crates, with panic=abort, and with the library's C++ half and generated code compiled with exceptions disabled (RUST_CXX_NO_EXCEPTIONS, -fno-exceptions; bridges without Result), accepted bridges build, values and ownership cross as with the default features, and panics still end the process. An operation of the C++ runtime that would throw prints the same message to stderr as 'Error: <message>. Aborting.' and aborts instead of continuing. The library is compiled as C++11 unless features ask for a later standard, the latest one asked for.",
  ["configurations", "inputs"], "all feature sets, compilers with and without exceptions, and all uses of the API under them",
  "All tests run with default features, with unwinding and with exceptions.",
  ["src/lib.rs", "src/cxx.cc", "src/unwind.rs", "src/exception.rs", "syntax/tokens.rs", "macro/src/expand.rs", "gen/src/write.rs", "gen/src/builtin.rs", "flags/src/impl.rs"],
  "conditional compilation of the library, paths through the library's own re-exports in generated Rust, conditional panic in the C++ half")
p("C31", "Documentation and attributes carry over and change nothing else",
  "Whatever documentation is written on the items, fields, variants and methods of a bridge, in whatever form and with whatever text, the generated C++ declares exactly what it declares without it, in every C++ standard, and compiles without warnings. Each documented item that the generated C++ declares is directly preceded by comment lines with that text (by a Doxygen block of at least two lines if CFG.doxygen is on). Each item that the bridge defines in Rust has that documentation, hiding and deprecation in rustdoc, and #[deprecated], #[must_use] and lint levels written on it give users of the item the diagnostics that the same item written by hand would give. Header names given to include! or to the generator are included verbatim.",
  ["inputs"], "all documentation texts, attributes and header names on all kinds of items",
  "No test looks at documentation in generated code; the macro tests have no attribute that produces diagnostics.",
  ["gen/src/write.rs", "gen/src/include.rs", "syntax/doc.rs", "syntax/attrs.rs", "syntax/parse.rs", "macro/src/expand.rs", "gen/build/src/cfg.rs"],
  "user text printed into C++ line comments and #include directives; attributes split into documentation, understood and passed-through ones, re-emitted on the item and only there")
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
