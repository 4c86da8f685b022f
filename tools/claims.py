_T="seeded deterministic simulation with fault injection, "
_N=" Sampling, not enumeration: a clean batch is evidence, not proof. Trusts the reference model (sim/src/text.rs, ops.rs, val.rs), core::fmt, serde and the simulated seams."
CLAIMED={
"C01":{"technique":_T+"failing and splitting writers against a text model",
 "note":"Every sink write of each formatting call can fail, fill up, split, be interrupted or panic where the seed says; text, prefix and error are compared with a big-integer text model on four builds."+_N},
"C02":{"technique":_T+"seeded preemption at callback and machine-instruction granularity",
 "note":"Several tasks call the library on real threads under one baton; the seed decides preemptions (single-stepped instruction counts), nesting inside callbacks, stale stack content and history; every outcome must be the one the call has alone. No weak-memory effects."+_N},
"C03":{"technique":_T+"journal on a simulated disk with crashes, torn writes and corruption",
 "note":"Text records through serde_json, RON, Value trees and Display/parse on a simulated disk; every read is compared with what was acknowledged or with what the damaged text denotes."+_N},
"C04":{"technique":_T+"journal on a simulated disk with crashes, torn writes and corruption",
 "note":"Byte records through serde_json, RON, bincode and Value trees on a simulated disk; every read is compared with what was acknowledged or with what the damaged bytes denote."+_N},
"C05":{"technique":_T+"simulated serializers, deserializers and sequence sources failing at every call",
 "note":"Every call the serde implementations make can fail or panic where the seed says; identity of errors, call counts and emitted tokens are checked over the recorded calls."+_N},
"C06":{"technique":_T+"histories of trapping in-place operations against a register model",
 "note":"Several clients apply in-place operators with every operand type to shared registers; traps strike wherever operands make them, preemption may hit inside, and the register file must match the model after every operation."+_N},
"C07":{"technique":_T+"streams that end, panic or overflow where the seed says",
 "note":"Items taken, order, result, trap position, panic identity and the continuation of the stream are compared with a model fold in builds with and without overflow checks."+_N},
"C08":{"technique":_T+"replicated state machine across four builds on a simulated network",
 "note":"Replicas on native/LLVM and debug/release builds apply one log of library operations through loss, duplication, reordering, partitions, stalls, crashes and snapshots; after every entry the state must equal the exact model's, and all replicas must reach the end within a bounded simulated time after the last fault."+_N},
"C09":{"technique":_T+"failing allocations during every call",
 "note":"The process allocator returns null for the whole call; any outcome that differs from the one with a working allocator is a violation."+_N},
"C10":{"technique":_T+"histories with duplicated and reordered requests, and panicking hashers and comparators",
 "note":"BTreeMap, HashMap, BTreeSet, BinaryHeap, sorting and searching keyed by the real types are compared operation by operation with the same collections keyed by big integers."+_N},
}
