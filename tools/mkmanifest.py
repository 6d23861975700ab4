#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONF = ("TLC checks the specification exhaustively within the bounds; every transition of its state graph is executed on the real "
        "code in a checked and a wrapping build, along with seeded random histories over key types of 0 to 65536 values, and TLC "
        "decides for every recorded call whether the specification allows its reply. ")
NUM = ("TLC checks the algebra of numberings (OrdinalTypes.tla) on every type it can build within the bounds; the real types, in a "
       "checked and a wrapping build, report size, value of ordinal, ordinal of value and comparisons, and TLC judges every report "
       "(Numbering.tla). Small types are gone through completely, larger ones at structured and random points; ")
NOTES = {
 "C01": ("OrdinalTypes.tla / Numbering.tla: TLC over the type algebra; TLC trace validation of observed numberings", NUM + "all provided types, fixed and random nestings."),
 "C02": ("OrdinalTypes.tla / Numbering.tla: declarations generated from TLC's state graph and at random, derived, observed, validated by TLC", NUM + "declarations vary names, forms, generics, discriminants, macros, uninhabited parts, up to 300 variants."),
 "C03": ("OrdinalTypes.tla order (Cmp) against observed ordinals and Rust comparisons, validated by TLC", NUM + "neighbours of every completely visited type, matrices of all pairs of samples."),
 "C04": ("AllValues.tla (window over the ordinal sequence, BigNat arithmetic): TLC state graph, replay, TLC trace validation", CONF + "Exhaustive for windows of up to 4 values; sampled histories with jumps near 0, SIZE, usize::MAX for real key types of up to 2^32 and usize::MAX values."),
 "C05": ("SparseMap.tla: TLC state graph, edge-covering replay, TLC trace validation", CONF + "Exhaustive for up to 4 keys; larger key spaces by embedding and sampling."),
 "C06": ("SparseMap.tla entry actions: TLC state graph, edge-covering replay, TLC trace validation", CONF + "Exhaustive for up to 4 keys."),
 "C07": ("SparseMap.tla + Cursor.tla: TLC state graph of iterator calls, replay, TLC trace validation", CONF + "Exhaustive for up to 3 keys and all iterator calls listed in Cursor.tla."),
 "C08": ("SparseMap.tla drain/clear/retain: TLC state graph, replay, TLC trace validation", CONF + "Exhaustive for up to 4 keys."),
 "C09": ("TotalMap.tla: TLC state graph, edge-covering replay, TLC trace validation", CONF + "Exhaustive for up to 4 keys."),
 "C10": ("TotalMap.tla + Cursor.tla: TLC state graph, replay, TLC trace validation", CONF + "Exhaustive for up to 3 keys."),
 "C11": ("ownership ledger in Store.tla checked by TLC; destructor events of real runs validated against it", CONF + "Judged here: which value identities each call destroys or hands over, including injected panics and errors. The value type reports every construction, clone and destructor call."),
 "C12": ("OrdSet.tla: TLC state graph, edge-covering replay, TLC trace validation", CONF + "Exhaustive for two sets of up to 3 elements."),
 "C13": ("OrdSet.tla + Cursor.tla: TLC state graph of iterator calls, replay, TLC trace validation", CONF + "Exhaustive for up to 4 elements."),
 "C14": ("AtomicReg.tla: exhaustive TLC check; recorded histories of native and Miri threads decided by a TLA+ linearizability monitor (RegMonitor.tla)", "TLC checks the register and its monitor on all histories of 2-3 threads with 1-2 calls each, and that the monitor rejects a compare-exchange made of two steps. Every call in every state of two cells over up to 3 values is replayed on the real cell; histories of up to 5 real threads and of up to 3 threads under Miri (random schedules, spurious failures, stale reads) are judged by the monitor, over key types of 1 to 2^64-1 values."),
 "C15": ("MemModel.tla (C11 memory model, RC11 axioms): TLC enumerates every outcome of litmus programs; the real cell's outcomes (compiler output, native threads, Miri) must be among them", "For about 170 litmus programs per run (all orderings of every call, in the places where they matter, plus random programs) TLC computes all permitted outcomes. The atomic instructions the compiler emits for every call and ordering are put into the same programs and must permit nothing more; runs on this machine and under Miri's weak memory must show nothing else."),
 "C16": ("Limits.tla: TLC decides which (use, type, size) combinations must be accepted; one program per combination is put to the compiler and TLC validates the verdicts", "TLC checks the limit rules on all types of its bounds with a small word; each use (SIZE, iteration, ordinal, from_ordinal, sets, array-backed collections) of types around usize::MAX, around 64 and with right and wrong size parameters is compiled and built as its own program, and accepted or rejected exactly as Limits.tla says."),
 "C17": ("clone actions of SparseMap/TotalMap/OrdSet with two handles: TLC state graph, replay, TLC trace validation", CONF + "Exhaustive for up to 2 keys with two objects, and for an iterator and its clone."),
 "C18": ("expected Debug text computed by the TLA+ specification; recorded text validated by TLC", CONF + "Exhaustive for up to 3 keys."),
 "C19": ("Ownership.tla / Hostile.tla: TLC checks that a map whose key type answers anything is still an owner; destructor and hand-over events of real runs with lying key types validated by TLC, the same histories run under Miri", "TLC checks, for maps of 3 slots with every answer a key may give (right, wrong, out of range, none, panic) at every step, that each call is a step of the ownership specification. Real maps, sets, iterators and cells go through systematic and seeded random histories with key types (hand-written, derived, composed of lying parts) that lie at chosen rates; TLC decides every recorded call against Ownership.tla, and an interpreter runs such histories to find undefined behaviour."),
 "C20": ("Resources.tla: TLC state graph of every cost the calls may have, edge-covering replay under a counting allocator, TLC trace validation of the measurements", "TLC checks the cost model (memory in use balances with what the calls ask for, settled maps do not allocate) on two objects of each cost class; every transition is executed on all collections over key types of 0 to 1000 values with values of 0 to 40 bytes, and random histories besides; TLC decides for each measured call whether its allocations, change of memory and questions to the key type are allowed. Times of calls on 16 and on 4 million (sets: 64 to 268 million) keys are judged with a margin of 100 times plus 20 microseconds."),
 "C21": ("Borrow.tla: static rules of which client programs are sound, proved by TLC to agree with a dynamic semantics of invalidation; generated programs are compiled and TLC validates each verdict of the compiler", "TLC checks, on all programs of up to 4 statements over representative calls, that the static rules reject a program exactly when running it would use something invalidated. About 10000 client programs per run (every call with every use before and after it, random longer programs, every type with every combination of thread-safe key and value types, generic clients without bounds) are compiled; TLC decides for each whether it has to be accepted."),
    "C22": ("the same TLA+ specifications as C01-C07, C12, C14, C16: recordings of the real code built for a target with 32-bit usize (wasm32, run natively) are validated by TLC; compile-time limits are judged with that target's largest number", "The drivers, generated key types and programs of the other checks are built for wasm32-unknown-unknown (std from rust-src) and run in node; TLC validates every recording against the specifications (numbering, order, all-values, maps, total maps, sets, cell) and decides for every limit program whether the 32-bit compiler has to accept it."),
}
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "none", "enable": "no hooks: the checks use the public interface only", "source_commits": []},
     "checks": [{"property": p, "quick_cmd": "python3 tools/check.py " + p,
                 "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p,
                 "technique": NOTES[p][0], "level": NOTES[p][2] if len(NOTES[p]) > 2 else "model_checking", "level_note": NOTES[p][1]}
                for p in props if p in NOTES],
     "not_applicable": [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in NOTES]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
