#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [dict(zip(("name","where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Formatted text is exact, and a failing writer sees a clean prefix of it",
  "Formatting a U256 or I256 (Display, Debug, Binary, Octal, LowerHex, UpperHex, LowerExp, UpperExp, with any sign, alternate, zero-padding, fill, alignment, width or precision flags) into any writer delivers, in order and without gaps or repeats, exactly the text the standard integer formatting rules give for that value (exponent forms: for the nearest f64; negative radix forms: two's complement, or '-' and the magnitude under the '-' flag). If the writer fails, runs out of space or panics at any write, what it accepted is a prefix of that text, nothing is written after the failure, and the caller gets that failure. Formatting never panics or fails by itself.",
  ["inputs","fault_sequences"], "every value, format specification, and point at which the writer fails, fills up, splits, is interrupted or panics",
  "The tests format a handful of constants into Strings, which never fail; no test has a writer that errors, and almost no flag combination is tried.",
  ["src/fmt.rs","src/macros/fmt.rs","src/uint/fmt.rs","src/int/fmt.rs"],
  [("decimal digit buffer and radix digit buffer handed to Formatter::pad_integral","src/fmt.rs"),("sign and two's complement handling per trait","src/macros/fmt.rs"),("f64 conversion for exponent forms","src/uint.rs as_f64, src/int.rs as_f64")],
  [("buf/curr","stack digit buffer and write cursor","src/fmt.rs fmt_u256")],
  ["fmt::Write::write_str/write_char of the caller's writer","io::Write::write through write!","the returned fmt::Result"])

p("C02", "Every call is isolated from concurrent, nested and earlier calls",
  "The outcome of any library call (formatting, parsing, arithmetic, iterator folds, serialization, deserialization) depends only on its own arguments. It is the same whichever other library calls are preempted in the middle on other threads, are in progress lower on the same stack (re-entered from a writer, iterator, serializer or deserializer callback), ran earlier or unwound earlier, and whatever they left behind in memory; text and bytes handed to a callback do not change while the callback holds them.",
  ["schedules","histories"], "every interleaving of calls at callback and instruction granularity, every nesting of calls inside callbacks, every earlier history and stale stack content",
  "Tests run calls one at a time with no preemption and no re-entry; a shared scratch buffer, a memo or an uninitialised byte is invisible to them.",
  ["src/fmt.rs","src/serde.rs","src/parse.rs","src/uint/api.rs","src/int/api.rs","src/intrinsics/native/divmod.rs","src/intrinsics/native/mul.rs"],
  [("all scratch space is on the caller's stack (MaybeUninit buffers)","src/fmt.rs, src/serde.rs FormatBuffer and visit_seq"),("results returned by value through MaybeUninit out-parameters","src/uint/api.rs, src/int/api.rs")],
  [("buf","stack scratch with uninitialised bytes","src/fmt.rs, src/serde.rs")],
  ["results and callback arguments of interleaved calls"])

p("C03", "Values stored as text come back exactly, through crashes and corruption",
  "A value written as text, by the default hex, decimal, prefixed or permissive serde forms, or by Display or '#'-prefixed radix formatting, and acknowledged by the storage or channel is read back as exactly that value by the matching deserializer or parser, in every serde data format and however reads and writes are split, interrupted and retried. If a crash, truncation or corruption changes the stored text, reading it gives an error or exactly the value the changed text denotes in that form: never a panic, and never a wrapped, truncated or otherwise different value (a negative number is an error for U256).",
  ["inputs","crash_points","fault_sequences"], "every value, text form and data format; every crash point, short or interrupted read or write, truncation and bit corruption of the stored text",
  "Tests check a few literals against in-memory value deserializers; none goes through a real format, a stream, a crash or damaged text.",
  ["src/serde.rs","src/parse.rs","src/macros/parse.rs","src/uint.rs","src/int.rs","src/fmt.rs"],
  [("FormatBuffer sized for the longest text","src/serde.rs FormatBuffer"),("FormatVisitor / PermissiveVisitor","src/serde.rs"),("from_str_radix, from_str_prefixed","src/parse.rs")],
  [("offset/buffer","stack text buffer","src/serde.rs FormatBuffer")],
  ["bytes in simulated storage","deserialize and from_str results"])

p("C04", "Values stored as bytes come back exactly, through crashes and corruption",
  "A value written through the serde byte forms (bytes and compressed_bytes; little, big and native endian; signed and unsigned) and acknowledged is read back as exactly that value by the matching deserializer, whether the data format presents it as borrowed bytes, owned bytes or a sequence of elements, and however the stream is split, interrupted and retried. The fixed form is the 32-byte two's complement encoding; the compressed form is its shortest prefix or suffix that sign-extends (zero-extends for U256) back to the value, and is empty for zero. Truncated, extended or corrupted input gives an error or exactly the value those bytes denote, never a panic or another value.",
  ["inputs","crash_points","fault_sequences"], "every value, byte form, endianness and presentation; every crash point, split, truncation, extension and corruption of the stored bytes",
  "Tests check about ten values per form, never round-trip one, and never read a torn or damaged record.",
  ["src/serde.rs"],
  [("BytesVisitor::visit_bytes/visit_seq","src/serde.rs mod bytes"),("leading_bits, extend, CompressedBytesVisitor","src/serde.rs mod compressed_bytes")],
  [("bytes","partly initialised 32-byte stack buffer","src/serde.rs visit_seq")],
  ["bytes in simulated storage","deserialize results"])

p("C05", "Serde failures surface unchanged, with nothing half-done",
  "When the serializer, the deserializer or a sequence source under a U256/I256 serde implementation fails or panics at any point, the call ends with that same error or panic, yields no value, and makes no further call to it; when it does not fail, a value is emitted by exactly one string or byte write. A sequence that is too short, too long, endless, holds non-byte elements or has a missing or wrong size hint gives an error, or the value its elements denote, after at most 33 elements are taken for the byte forms.",
  ["fault_sequences","inputs"], "every point at which the underlying format can fail, every sequence length and size hint, every kind of input presented to every form",
  "The test serializers and deserializers never fail; error identity, call counts and endless sources are not tested.",
  ["src/serde.rs"],
  [("? on next_element, single serialize_str/serialize_bytes call","src/serde.rs"),("length checks in visit_seq","src/serde.rs")],
  [], ["calls received by the simulated serializer, deserializer and SeqAccess"])

p("C06", "In-place operators are all-or-nothing when an operation traps",
  "Over any history of compound assignments (+= -= *= /= %= &= |= ^= <<= >>=, with every accepted operand type, by value or reference) on shared values, each one either completes with exactly the result of the primitive integer operator widened to 256 bits, or panics and leaves the target and the operand unchanged. Division and remainder by zero and I256::MIN by -1 panic in every build; overflow and shift amounts outside 0..256 panic exactly in builds with debug assertions, and wrap (amounts modulo 256) in the others.",
  ["histories","fault_sequences","schedules"], "every history of in-place operations by several clients, with traps striking any operation and clients continuing after them",
  "Tests apply single operators to a few constants in one build; none looks at the target after a panic or at a sequence of operations.",
  ["src/macros/ops.rs","src/uint/ops.rs","src/int/ops.rs","src/intrinsics/native","src/intrinsics/llvm.rs","src/intrinsics/signed.rs"],
  [("compute into a temporary, check, then assign","src/macros/ops.rs"),("2-operand intrinsics copying their input first","src/intrinsics/native/divmod.rs udiv2/urem2/idiv2/irem2")],
  [("target register","the value updated in place","caller memory")],
  ["target and operand memory after return or unwinding"])

p("C07", "Sum and Product fold an interruptible stream exactly once, in order",
  "Sum and Product, over values or references, take each item the iterator yields exactly once and in order and return its sum or product (1 for an empty product), with the operator's overflow behaviour at the item where the running result first overflows. If the iterator panics at any item, or the fold traps there, that panic reaches the caller, no later item has been taken, and the rest of the stream can still be folded correctly.",
  ["inputs","fault_sequences","histories"], "every stream of values, every point at which it ends, panics or makes the fold overflow, and every continuation afterwards",
  "Two doc-tests fold three values each; no test has a failing iterator or overflow inside a fold.",
  ["src/macros/iter.rs","src/uint/iter.rs","src/int/iter.rs"],
  [("Iterator::fold with the operator","src/macros/iter.rs")],
  [], ["calls to the iterator's next","result or panic"])

p("C08", "Replicas on any build agree with each other and with exact arithmetic",
  "Replicas of one state machine whose registers are U256/I256, built from the same sources with native or LLVM intrinsics and with or without debug assertions, that apply the same log of library operations (checked, wrapping, overflowing, saturating, Euclidean and plain arithmetic, pow, bit operations, shifts and rotates, comparisons, integer and float conversions, byte and word views, parsing and literal parsing) hold after every log position identical states, equal to the exact mathematical results as the primitive integer API defines them, across message loss, duplication, reordering, partitions, crashes and recovery from state they encoded themselves. Once faults stop, every replica reaches the end of the log within a bounded simulated time.",
  ["configurations","histories","schedules","crash_points","fault_sequences"], "every log, every mix of builds, every delivery order and every crash and recovery point",
  "CI runs the same sampled unit tests once per build; no test compares builds, runs a history, or recovers state.",
  ["src/uint.rs","src/int.rs","src/uint","src/int","src/intrinsics.rs","src/intrinsics","src/parse.rs","src/macros/ops.rs","intrinsics/src/lib.rs"],
  [("native intrinsics","src/intrinsics/native"),("LLVM intrinsics","src/intrinsics/llvm.rs, intrinsics/"),("cfg(debug_assertions) arms","src/macros/ops.rs")],
  [("registers","replica state","simulated node")],
  ["replica state digest at each log index","recovered snapshots"])

p("C09", "No call needs the allocator",
  "Formatting, parsing, arithmetic, comparison, hashing, iterator folds, and the serde adaptors give the same results when every memory allocation requested during the call fails as when none does.",
  ["fault_sequences","inputs"], "every call and value, with any or all allocations inside it failing",
  "Tests run with a working allocator (and link alloc), so a hidden allocation passes all of them.",
  ["src/lib.rs","src/serde.rs","src/fmt.rs","src/error.rs","src/parse.rs"],
  [("#![no_std] with stack buffers","src/lib.rs, src/serde.rs FormatBuffer")],
  [], ["the process allocator during a call"])

p("C10", "Collections keyed by 256-bit integers behave as keyed by the number",
  "Over any history of inserts, lookups, removals, range scans and sorts, ordered and hashed collections keyed by U256 or I256 behave exactly as if keyed by the mathematical integer, whatever the hasher and its random seed, in whatever order and multiplicity requests arrive, and also after a hasher or callback panics in the middle of an operation. Comparisons with primitive integers, min, max and clamp agree with the same order.",
  ["histories","schedules","fault_sequences"], "every history of requests, arrival order, hash seed and interruption point",
  "Tests compare a few pairs; none uses the types as keys, and none checks Hash, Ord and Eq together.",
  ["src/macros/cmp.rs","src/uint/cmp.rs","src/int/cmp.rs"],
  [("Eq, Ord and Hash over the words","src/macros/cmp.rs, src/uint/cmp.rs, src/int/cmp.rs")],
  [], ["BTreeMap/BTreeSet/HashMap/BinaryHeap/sort results"])

INT=["src/uint","src/int","src/intrinsics"]
def n(id,title,st,q,why,files,mech):
    p(id,title,st,["inputs"],q,why,files,[(mech,files[0])])
n("N01","Arithmetic is exact for every operand pair","For every pair of operands, wrapping, checked, overflowing and saturating add, sub, mul, neg, abs and pow return the mathematical result reduced, rejected, flagged or clamped as the primitive integer API documents.","every operand pair","Tests sample constants.",["src/uint/api.rs","src/int/api.rs","src/intrinsics"],"intrinsics and overflow flags")
n("N02","Division satisfies the division identity","For every dividend and non-zero divisor, quotient and remainder of each of the truncating and Euclidean division families satisfy a = q*b + r with the documented range and sign of r, and the combined and separate forms agree.","every operand pair","Tests sample a few dozen pairs; the division algorithm has branches random inputs almost never take.",["src/intrinsics/native/divmod.rs","src/uint.rs","src/int.rs"],"Knuth algorithm D on 128-bit digits")
n("N03","Bit operations act on the 256-bit two's complement pattern","Shifts, rotates, counts, byte and bit reversal and bitwise operators equal the operation on the 256-bit pattern for every value and amount.","every value and shift amount","Tests sample a few.",["src/uint/api.rs","src/int/api.rs","src/intrinsics"],"word-wise implementations")
n("N04","Integer conversions preserve or truncate as the primitives do","From, TryFrom and as-style casts between 256-bit and primitive integers preserve the value, report exactly the out-of-range cases, or truncate and sign-extend as the primitive casts do.","every value and type pair","Tests sample a few values.",["src/uint/convert.rs","src/int/convert.rs","src/uint.rs","src/int.rs"],"conversion macros")
n("N05","Float conversions round and saturate as the primitives do","Casting to f32/f64 rounds to nearest even, and casting from them truncates, saturates and maps NaN to zero.","every value and float","Tests sample a few values.",["src/uint/convert.rs","src/int/convert.rs","src/uint.rs","src/int.rs"],"as_f64, as_u256, as_i256")
n("N06","Parsing accepts exactly the documented grammar","For every string and radix, from_str, from_str_radix, from_str_hex and from_str_prefixed return exactly the denoted in-range value or the error kind the primitives give.","every string and radix","Tests sample a few strings.",["src/parse.rs","src/uint/parse.rs","src/int/parse.rs"],"from_str_radix")
n("N07","Literal macros accept every representable literal and reject the rest","int! and uint! evaluate every valid in-range literal to its value at compile time and reject every other literal at compile time.","every literal","Tests sample a few literals.",["src/parse.rs","src/lib.rs"],"const_from_str_prefixed")
n("N08","Comparison is the numeric total order","Eq, Ord, PartialOrd and comparisons with primitive integers agree with the numeric order for every pair.","every pair","Tests compare a few pairs.",["src/macros/cmp.rs","src/uint/cmp.rs","src/int/cmp.rs"],"word-wise comparison")
n("N09","Word and byte views are the documented layout","from_words/into_words, low/high accessors and to/from be/le/ne bytes are mutually inverse views of the same 256-bit pattern.","every value","Tests sample a few values.",["src/uint.rs","src/int.rs","src/uint/api.rs","src/int/api.rs"],"repr(transparent) over [u128; 2]")

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=True)+"\n")
