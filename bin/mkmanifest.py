#!/usr/bin/env python3
# Generates /verif/MANIFEST.json from the table of checks below and properties.jsonl.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
 "C09": ("effect and ownership rules over the resolved call graph and types (rustc driver)",
         "Exhaustive over the reachable program; trusts rustc's resolution and its unsafe_code lint, and that core/alloc are effect-free."),
 "C01": ("relational abstract interpretation of the MIR (linear inequalities, joins, widening, inferred type invariants); every panic, index, slice and unwrap site is an obligation",
         "Sound for the interpreted MIR and the modelled std functions; the sites listed in undecided.txt are counted, not proved."),
 "C02": ("relational abstract interpretation of the MIR; every arithmetic operation and narrowing cast is an obligation",
         "Sound for the interpreted MIR and the modelled std functions; the sites listed in undecided.txt are counted, not proved."),
 "C04": ("relational abstract interpretation of the MIR; every allocation size is an obligation",
         "Sound for the interpreted MIR and the modelled std functions."),
 "C14": ("abstract interpretation with a typestate for the shared reader's position: every read must be preceded by an absolute seek on all abstract paths",
         "Sound for the interpreted MIR and the modelled std functions."),
}
CHECKS["C07"] = ("abstract interpretation with a pending-failure ghost: at every exit of every public operation no failure (reader error, constructed error value) may be pending unless an error is returned",
         "Sound for the interpreted MIR and the modelled std functions; the documented exceptions are part of the rule.")
CHECKS["C10"] = ("compile witness (a no_std crate linking the library), rules over the source tokens (host-endian, word-sized or target-dependent reads, feature-dependent functions), and relational abstract interpretation of the MIR with 32-bit words",
         "The word-size part is sound for the interpreted MIR and the modelled std functions; the token rules name the constructs they reject.")
CHECKS["C21"] = ("partial evaluation of the format templates on the MIR of the Display implementation: the sequence of written pieces, field arguments and widths is compared with the canonical form",
         "Covers every control flow path of the implementation including helpers and constant loops; trusts core::fmt.")
CHECKS["C23"] = ("effect rules over the resolved call sites of the example shell (rustc driver): which std functions with effects are called, and how every file is opened",
         "Exhaustive over the shell's own code; trusts rustc's resolution and the effects attributed to std functions.")
SPEC = ("relational abstract interpretation of the MIR (linear inequalities over symbolic field contents, joins, widening, inferred type invariants); every line of specs/%s is an obligation at each abstract exit of the named function",
        "Sound for the interpreted MIR and the modelled std functions; covers the functions and facts listed in the specification file.")
for i, f in [("C03", "geometry.txt"), ("C11", "layout.txt"), ("C12", "read.txt"), ("C13", "seek.txt"), ("C20", "time.txt"), ("C06", "records.txt"), ("C15", "typed.txt"), ("C22", "runs.txt")]:
    CHECKS[i] = (SPEC[0] % f, SPEC[1])
AUTO = ("typestate automata run over the relational abstract interpretation of the MIR (a ghost state per abstract state, never joined across automaton states); every transition, every exit and every line of specs/%s is an obligation",
        "Sound for the interpreted MIR and the modelled std functions; the automaton sees the library's own element, comparison and lookup calls.")
for i, f in [("C16", "lookup.txt"), ("C17", "tree.txt"), ("C18", "tree.txt")]:
    CHECKS[i] = (AUTO[0] % f, AUTO[1])
NA = {
    "C05": "Termination over every image is not decidable here by a sound static argument in reach: the descent through index subnodes follows virtual cluster numbers read from the image, and nothing in the image format or the code orders them, so a ranking function would have to be a property of runtime data (a cycle of subnodes has none). The progress of the remaining loops (an attribute, data run or index entry has a nonzero length) depends on the same kind of unbounded relation between successive iterations of different calls.",
    "C08": "The state an iterator is left in after an error depends on which of several nested reads failed and on what the caller does next, that is on a fault history at run time. A static rule that forbids any write before the last fallible step rejects correct code (buffers and positions that the next call recomputes), and one that allows them decides nothing.",
    "C19": "The total-order law relates two runs of a comparison loop over two unbounded sequences and a table read from the image. The abstract domain here has no relation between the elements of two sequences, and a syntactic rule about the comparison function would judge how it is written. What is static about it (which table is consulted, its size and bounds) is decided under C01, C02 and C07.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bin/setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, n = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "bin/check " + i, "technique": t, "level": "other", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
