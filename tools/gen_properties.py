#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that anchors stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

VV = ("VecVoid", "type erased pointer/length/capacity/element info shared by every owning vector", "src/vec_void.rs")

prop("C01", "Type-erased vectors of arbitrary elements behave like typed vectors",
 "After any sequence of operations on a type-erased vector of arbitrary (also non-copyable) elements, its length and the sequence of its elements are exactly those of an ordinary typed vector that went through the same operations. This covers construction from vectors, slices, sizes and capacities, every way of appending (typed, boxed, by cloning, whole vectors), resizing, filling, clearing, rotating, element access for reading and writing, and conversion back to typed vectors.",
 ["inputs", "histories"], "every element type (any size to alignment ratio, with or without destructor), every history of operations and every intermediate length and capacity",
 "The tests push a handful of elements of a few types whose size equals their alignment and never mix growth, append, rotation and erased pushes in one history.",
 ["src/vec_dyn.rs", "src/vec_void.rs", "src/vec_copy.rs", "src/elem.rs"],
 [("alignment-chunk arithmetic of the erased vector", "src/vec_void.rs (apply_aligned_unchecked, push, append, resize_with, rotate_*, truncate)"), ("typed views over the erased storage", "src/vec_copy.rs, src/vec_dyn.rs")], [VV],
 ["VecDyn public API: as_slice_as, iter, len, into_vec"])

prop("C02", "Type-erased vectors of plain data behave like typed vectors",
 "After any sequence of operations on a type-erased vector of copyable elements, its length and the sequence of its elements are exactly those of an ordinary typed vector that went through the same operations. This covers all constructors, typed and erased appends, extending and collecting from erased references, appending whole vectors, resizing, filling, overwriting, clearing, rotating, reserving, element access and conversion back to typed vectors.",
 ["inputs", "histories"], "every copyable element type (any size to alignment ratio, with padding), every history of operations",
 "The tests run fixed short sequences on primitive types; growth through the erased interface of elements larger than their alignment was never exercised (and was broken).",
 ["src/vec_copy.rs", "src/vec_void.rs", "src/copy_value.rs"],
 [("alignment-chunk arithmetic of the erased vector", "src/vec_void.rs"), ("typed push through a reconstructed Vec", "src/vec_copy.rs (push_as, extend, append)")], [VV],
 ["VecCopy public API: as_slice_as, iter, len, into_vec"])

prop("C03", "Every element and value is destroyed exactly once",
 "Every value handed to a type-erased container or value is either handed back to the caller or has its destructor run exactly once, no later than when its last owner is dropped; this includes arguments of operations that are refused because the types do not match and consuming conversions that fail. No destructor runs on a value that is still owned by someone, and dropping everything returns all heap memory that was obtained, with the same size and alignment it was obtained with.",
 ["inputs", "histories"], "every history of moves, clones, overwrites, refused operations, conversions and drops over vectors, boxed values, word-sized values, slices and references",
 "The tests count references of a few Rc elements after a few successful calls; refused operations, failing conversions and overwriting through references are not covered (several leaked).",
 ["src/vec_dyn.rs", "src/value.rs", "src/vec_void.rs", "src/traits.rs", "src/copy_value.rs"],
 [("ManuallyDrop hand-over between owners", "src/vec_dyn.rs (Drop, into_vec, into_raw_parts, upcast), src/value.rs (Drop, downcast, upcast)"), ("drop functions stored in the tables", "src/traits.rs (DropBytes)"), ("deallocation with the original alignment", "src/copy_value.rs (DropAsAligned)")], [VV],
 ["destructor and clone events of instrumented element types", "allocator events"])

prop("C04", "Contents are only ever accessible as their own type",
 "Every typed access to erased contents (borrowing, iterating, downcasting, converting, pushing, filling, resizing, overwriting, appending, assigning, swapping) succeeds exactly when the requested or supplied type is the element's own type, also for distinct types of identical size and alignment. An access with any other type is reported as a mismatch (or leaves both operands alone where nothing is returned) and leaves the contents, length and type of every operand unchanged.",
 ["inputs", "histories"], "every ordered pair of element types, every access operation of every container, view, value and reference type, at any point of a history",
 "The tests try a few mismatches per container; the guarantee is over all pairs of types and all entry points, including look-alike types with equal layout.",
 ["src/vec_copy.rs", "src/vec_dyn.rs", "src/slice.rs", "src/slice_copy.rs", "src/value.rs", "src/copy_value.rs"],
 [("TypeId comparison in every typed entry point", "check/check_ref/check_mut, downcast_with, is, push, append, swap, copy, clone_from_other")], None,
 ["return values of the typed entry points", "contents before and after"])

prop("C05", "No sequence of safe calls causes undefined behaviour",
 "No program that uses only the safe interface with well-behaved element types can cause undefined behaviour: all accesses stay within live, properly aligned, initialised storage of the right type, exclusive access is exclusive, and memory is released with the layout it was allocated with. This holds in builds with and without run-time assertions, for elements with padding bytes, pointers, destructors and any size to alignment ratio.",
 ["programs", "inputs", "histories"], "every safe program over the public interface, every element layout, debug and release builds",
 "Tests observe results, not memory accesses: an out-of-bounds read, a wrong deallocation layout or an aliasing violation passes silently. CI does not run the interpreter over mixed histories.",
 ["src/vec_void.rs", "src/vec_copy.rs", "src/bytes.rs", "src/slice_copy.rs", "src/value.rs", "src/traits.rs", "src/lib.rs"],
 [("layout bookkeeping per element", "src/elem.rs (ElemInfo, eval_align)"), ("byte level casts", "src/bytes.rs"), ("raw views", "src/vec_copy.rs, src/slice_copy.rs")], [VV],
 ["Miri and AddressSanitizer reports", "guarding allocator"])

prop("C06", "A panic in element code leaves every container sound and usable",
 "If an element's own clone, comparison, formatting, hashing or destructor panics, or an operation panics because it was refused, then every container and value involved stays sound: it keeps its element type, holds only live elements, can be inspected, modified further and dropped without another failure, and no element is ever destroyed twice. A panicking clone adds nothing to the container it was meant for and loses none of the elements already in it.",
 ["fault_sequences", "histories"], "a panic injected at every single call from the library into element code, for every history of operations",
 "No test contains a panicking element. Unwinding through code that temporarily moved the storage out of the container only shows when a panic hits exactly there.",
 ["src/vec_void.rs", "src/vec_dyn.rs", "src/value.rs", "src/traits.rs"],
 [("restoring the temporarily extracted vector", "src/vec_void.rs (apply_aligned_unchecked, apply_unchecked, resize_with)"), ("order of length update and element destruction", "src/vec_dyn.rs (clear, resize)")], [VV],
 ["instrumented element types with injected panics"])

prop("C07", "Out-of-range positions and counts are rejected in every build profile",
 "Whenever a position, range, split point, rotation amount or requested capacity is outside of what the container or view holds, the operation is refused with a panic exactly as for a typed slice or vector, however large the number is, with and without run-time assertions and overflow checks. A number is never silently wrapped, truncated or applied to part of an element, and the refused operation leaves the contents unchanged; in-range numbers are never refused.",
 ["inputs", "configurations"], "all index, range and count arguments (in particular those near the length and those that overflow when scaled by the element size), all element sizes, debug and release profiles",
 "The tests use small in-range numbers and run in the debug profile only, where the compiler's own overflow checks hide missing checks.",
 ["src/lib.rs", "src/index_slice.rs", "src/slice_copy.rs", "src/vec_copy.rs", "src/vec_dyn.rs", "src/vec_void.rs"],
 [("scaling of element indices to bytes", "src/lib.rs (index_byte_range), src/index_slice.rs (ScaleRange), src/slice_copy.rs"), ("bounds assertions", "src/vec_copy.rs (get_*), src/slice*.rs (get_as)")], None,
 ["panic or return of each call", "contents before and after"])

prop("C08", "Slice views denote exactly the requested elements",
 "Every view obtained from a vector, a typed slice or another view (whole, by any kind of range, by splitting, by chunking, by reborrowing, mutable or not, borrowed or consumed, to any nesting depth) consists of exactly the elements a typed slice would denote for the same request, in the same order and without copying them. Writing, swapping, rotating, copying or cloning into a mutable view changes exactly the denoted elements of the underlying storage and nothing else.",
 ["inputs", "histories"], "every chain of view operations over every element type and every length, including empty views, single elements and remainders of chunks",
 "The tests take one or two fixed subslices of short vectors of primitive types.",
 ["src/slice.rs", "src/slice_copy.rs", "src/index_slice.rs", "src/lib.rs", "src/vec_dyn.rs", "src/vec_copy.rs"],
 [("range scaling", "src/index_slice.rs"), ("byte sub-slicing", "src/slice_copy.rs (subslice*, split_at, chunks_exact*)"), ("element swap and rotation on bytes", "src/lib.rs (swap), src/slice_copy.rs (rotate_*)")], None,
 ["view contents, element addresses, underlying storage after writes"])

prop("C09", "Iteration yields each element exactly once, in order, with its own identity",
 "Iterating a vector or view, by typed or by erased references, shared or mutable, borrowed or consuming, yields every element exactly once in storage order, and each yielded erased reference refers to that very element (same address, type, size and alignment). Writing through the yielded mutable references changes exactly the element they were yielded for, and the references yielded by one iteration can all be held at the same time.",
 ["inputs", "histories"], "every container and view type, every iteration method, every element type and length (including zero) and any partial consumption",
 "Tests iterate short vectors of small types fully and in one way at a time.",
 ["src/vec_dyn.rs", "src/vec_copy.rs", "src/slice.rs", "src/slice_copy.rs"],
 [("chunked byte iteration", "byte_chunks, byte_chunks_mut, chunks_exact(num_bytes)")], None,
 ["addresses and keys of yielded references"])

prop("C10", "Equality, hashing and formatting agree with the element type",
 "Erased vectors, views, values and references that support comparison, hashing or debug formatting give the results of the element type's own implementations: two vectors or views are equal exactly when they have equal length and pairwise equal elements, values are equal exactly when they have the same type and compare equal, formatting shows the same text (with the same formatting options) as the typed counterpart, and hashing feeds the element's own hash. Consequently equal things hash equally, and erased values work as keys of hash based collections just like typed ones.",
 ["inputs"], "all pairs of contents (equal, prefix, permuted, different in one element, of different types, with irreflexive or order dependent comparison), all container and value kinds, all formatting options",
 "The tests compare equal pairs and pairs of the same length; prefixes compared equal for years.",
 ["src/vec_dyn.rs", "src/slice.rs", "src/value.rs", "src/traits.rs", "dync-derive/src/lib.rs"],
 [("PartialEq/Hash/Debug forwarding", "src/vec_dyn.rs, src/slice.rs, src/value.rs"), ("eq/hash/fmt functions in the tables", "src/traits.rs")], None,
 ["results of ==, Hash, Debug next to the typed results"])

prop("C11", "Owned erased values preserve exactly the value that was stored",
 "A boxed or word-sized erased value reports the type, size and alignment of the value it was made from, and converting it back with that type returns this very value, unchanged by any number of moves, clones, swaps or conversions of the erased wrapper in between. A value that is not exactly one word in size is refused by the word-sized form, and every other value (including zero-sized ones for the boxed form) is accepted.",
 ["inputs", "histories"], "every type (any size, alignment, niche, with or without destructor), every history of wrapper operations",
 "Tests store a couple of integers and Rc pointers and convert them straight back.",
 ["src/value.rs", "src/bytes.rs", "src/copy_value.rs", "src/traits.rs"],
 [("byte level boxing and word transmutes", "src/bytes.rs"), ("value wrappers", "src/value.rs (Value, BoxValue, SmallValue)")], None,
 ["downcast results, metadata accessors"])

prop("C12", "Writing through an erased reference affects exactly its referent",
 "Assigning, swapping, copying or cloning through an erased mutable reference gives the referent exactly the supplied value (and the other operand of a swap the old one), destroys or hands over the previous value exactly once, and changes nothing else. If the types differ nothing is changed on either side and operations that can report it do so; reborrowed, converted or upcast references refer to the same place as the original.",
 ["inputs", "histories"], "every element type, every pair of referents (inside vectors, views, boxed and word-sized values, plain variables), matching and mismatching",
 "Tests assign or clone one Rc through one reference.",
 ["src/value.rs", "src/copy_value.rs", "src/traits.rs"],
 [("byte swaps and typed clone_from", "src/value.rs (swap, assign, clone_from_other), src/copy_value.rs (copy, swap)")], None,
 ["contents and identities around the referents"])

prop("C13", "Clones are complete, deep and independent",
 "Cloning a type-erased vector or value (also into typed vectors, from slices, by pushing clones or by cloning a reference) calls the element's own clone exactly once per copied element and yields equal contents in the same order in storage of its own. Afterwards the original and the clone can be modified and dropped independently without affecting one another, and the original is unchanged by being cloned.",
 ["inputs", "histories"], "every element type, length and capacity, every way of cloning, every later history on either copy",
 "Tests clone once, compare, and count references for one type.",
 ["src/vec_dyn.rs", "src/vec_void.rs", "src/value.rs", "src/traits.rs", "src/vec_copy.rs"],
 [("shallow copy followed by element-wise clone", "src/vec_dyn.rs (Clone), src/vec_void.rs (Clone), src/traits.rs (clone_into_raw_bytes)")], [VV],
 ["clone events of instrumented elements, storage addresses"])

prop("C14", "Changing the capability table keeps contents and behaviour",
 "Narrowing a container, view, value or reference to fewer capabilities, turning it into or back from a dynamically dispatched capability table, or taking it apart and reassembling it leaves its elements untouched (same storage, order, type and ownership), and every capability that remains still behaves as the element type's own implementation. The result is again fully functional: it can be grown, cloned, compared, hashed, printed and dropped as far as its remaining capabilities allow.",
 ["programs", "histories"], "every supported conversion between capability sets, for owned, borrowed and mutable containers and values, at any point of a history, to any depth",
 "Tests convert once and check one element of one type.",
 ["src/lib.rs", "src/vec_dyn.rs", "src/vec_copy.rs", "src/slice.rs", "src/slice_copy.rs", "src/value.rs", "src/vtable.rs", "dync-derive/src/lib.rs"],
 [("upcast through From", "upcast, upcast_with, upcast_ref, upcast_mut"), ("into_dyn!/from_dyn! and raw parts", "src/lib.rs"), ("generated From impls", "dync-derive/src/lib.rs")], None,
 ["contents, addresses and behaviour after conversion"])

prop("C15", "Thread and equality capabilities are claimed only when elements have them",
 "An erased container, view, value or reference can be moved to or shared with another thread only if the capability table it carries guarantees that the elements themselves allow this kind of use, and likewise it claims total equality or cloning only if its table guarantees it; when the table does guarantee it the capability is available. Programs that compile under these rules have no data race, whatever the interleaving.",
 ["programs", "schedules"], "every erased type crossed with every built-in and generated capability table, every safe program that moves or shares it, every schedule",
 "Capability claims are compile-time facts about generic types that no test enumerates, and races need a hostile program plus a race detector.",
 ["src/value.rs", "src/slice.rs", "src/slice_copy.rs", "src/vec_dyn.rs", "src/traits.rs", "dync-derive/src/lib.rs"],
 [("unsafe impl Send/Sync bounds", "src/value.rs (impl_value_ref_traits, Value), src/slice.rs, src/vec_dyn.rs"), ("HasSend/HasSync/HasEq marker impls", "src/traits.rs, dync-derive/src/lib.rs")], None,
 ["implemented-trait matrix of all erased types", "race detector reports"])

prop("C16", "References and views never outlive or alias their storage",
 "Safe code cannot keep a view, iterator, element reference or erased reference beyond the life of the storage it came from, cannot modify or free storage while a view of it is in use, and cannot obtain two usable references to one element of which one is mutable. Programs that respect these rules are accepted: distinct elements, halves of a split and reborrowed views can be used one after another or side by side as with typed slices.",
 ["programs"], "every safe client program (in particular every constructor, accessor and conversion that produces a borrowing type)",
 "A test must compile, so no test can contain the offending programs; one constructor accepted an unconstrained lifetime unnoticed.",
 ["src/slice.rs", "src/slice_copy.rs", "src/value.rs", "src/copy_value.rs", "src/vec_dyn.rs", "src/vec_copy.rs", "src/meta.rs"],
 [("lifetime parameters in signatures", "from_slice, as_slice, as_mut_slice, get, get_mut, iter*, subslice*, split_at, reborrow*, downcast")], None,
 ["whether hostile client programs come into existence, and their behaviour under the interpreter if they do"])

prop("C17", "Conversions reuse storage and capacity requests are honoured",
 "Turning a typed vector into an erased one and back keeps the same allocation when the vector has capacity, hands back the same capacity, and never copies or clones elements. A requested or reserved capacity is really available (that many further elements can be added without reallocating), clearing or shrinking keeps the allocation, appending moves all elements and leaves the source empty but usable with the same type, and adding n elements one by one reallocates only O(log n) times.",
 ["inputs", "histories"], "every element type, every length and capacity, every history of growth",
 "No test looks at addresses, capacities or the number of allocations.",
 ["src/vec_void.rs", "src/vec_copy.rs", "src/vec_dyn.rs"],
 [("raw parts hand-over", "src/vec_void.rs (from_vec, into_vec_unchecked, from_vec_override)"), ("element-granular growth", "src/vec_void.rs (reserve)")], [VV],
 ["allocator events, capacity, data addresses"])

prop("C18", "Elements of every size and alignment are stored properly aligned",
 "For every supported element size and alignment (including large alignments and sizes that are many times the alignment), every element in erased storage, every boxed value and every reference handed out is at an address that is a multiple of the element type's alignment, and adjacent elements are exactly one element size apart. This stays true across growth, cloning, appending, rotation, conversion and construction from type descriptions alone.",
 ["inputs", "histories"], "all alignments from one byte to many pages, all sizes per alignment, every storage-producing operation",
 "Tests use alignments up to eight; heap blocks from the system allocator are 16-byte aligned by accident.",
 ["src/elem.rs", "src/vec_void.rs", "src/copy_value.rs", "src/vec_copy.rs", "src/bytes.rs"],
 [("alignment dispatch", "src/elem.rs (eval_align, generate_aligned_types)"), ("ElemInfo", "src/elem.rs")], [VV],
 ["addresses under an allocator that never over-aligns"])

prop("C19", "Numeric conversion, dispatch and printing follow the element type",
 "With numeric support, converting an erased vector of any fixed-size primitive numeric element type (u8 to u64, i8 to i64, f32, f64) to a vector of another numeric type gives for each element in order the value-preserving conversion, or zero where the target cannot represent it, and non-numeric contents are reported as such (nothing or an empty result). Type dispatch over erased numeric data calls the user's function with the actual element type and the fallback otherwise, and printing shows each number as its own type prints it, in order.",
 ["inputs", "configurations"], "all ten primitive numeric element types crossed with all target types, all values including limits, negatives, fractions, infinities and NaN; non-numeric element types",
 "Tests convert a few small values between a few types.",
 ["src/macros.rs", "src/vec_copy.rs", "src/vec_dyn.rs"],
 [("type dispatch macro", "src/macros.rs (call_numeric_buffer_fn)"), ("cast_into_vec, Display", "src/vec_copy.rs, src/vec_dyn.rs")], None,
 ["converted vectors, recorded dispatch type, printed text"])

prop("C20", "Generated capability tables dispatch to the element's own behaviour",
 "For every trait declaration accepted by the code generation attributes, with any selection of supported base capabilities and any inheritance between such traits, containers using the generated table perform exactly the element type's own clone, in-place clone, comparison, hashing, formatting and destruction, and nothing else. Conversion along declared inheritance preserves each inherited behaviour, and a generated table exists only for element types that implement the trait.",
 ["programs"], "every combination and order of base capabilities, inheritance chains and diamonds, traits in modules, renamed crates and name suffixes, generic element types",
 "Tests declare a few traits; the generator is a program transformation whose inputs are programs.",
 ["dync-derive/src/lib.rs", "src/traits.rs"],
 [("vtable construction and accessors", "dync-derive/src/lib.rs"), ("hand written tables", "src/traits.rs")], None,
 ["behaviour of generated programs, instrumented elements"])

prop("C21", "Containers behave the same under every feature selection",
 "The parts of the interface that are available under several feature selections behave identically in all of them: the same history of operations on plain-data vectors, views and references gives the same results, the same refusals and the same contents whether optional features are on or off. Turning a feature on only adds functionality.",
 ["configurations", "histories"], "all feature selections (none, traits, numeric, both) and debug and release profiles, all histories over the common interface",
 "Each test runs in one configuration at a time and compares with a literal, never across configurations; most tests exist only in the default configuration.",
 ["Cargo.toml", "src/lib.rs", "src/vec_copy.rs", "src/slice_copy.rs", "src/copy_value.rs"],
 [("cfg(feature) gates", "src/lib.rs, src/vec_copy.rs, src/meta.rs")], None,
 ["event logs of the same seeded histories in every build"])

prop("C22", "Type descriptions are faithful and make working empty vectors",
 "The element type identity, element size and alignment reported by any container, view, value or reference are always those of the elements it holds, from construction on and unchanged by every operation. An empty vector made from the type description of any other container, view, value or reference is empty, has the described type and all capabilities of its source, accepts exactly elements of that type, and stays usable after the source is gone.",
 ["inputs", "histories"], "every source of a type description (vectors, views, mutable views, values, references, boxed tables and borrowed ones), every element type, every later history on the new vector",
 "Tests make an empty vector from two kinds of sources and add one element.",
 ["src/meta.rs", "src/vec_copy.rs", "src/vec_dyn.rs", "src/vtable.rs", "src/elem.rs", "src/value.rs"],
 [("Meta conversions", "src/meta.rs"), ("with_type_from", "src/vec_copy.rs, src/vec_dyn.rs"), ("VTableRef ownership", "src/vtable.rs")], None,
 ["metadata accessors, later histories on the new vector"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
