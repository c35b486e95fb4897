#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks below."""
import json
EQ = ("Sound for the language subset the evaluator models: every path of the function and what it calls is covered, loops by one arbitrary iteration, or where loops do not correspond by laying out their first rounds "
      "(summaries are joined per guard, nothing is executed and no solver is used). Trusted: the reference definition in checker/spec, the evaluator, go/types and go/ssa; "
      "standard library calls are uninterpreted functions of their arguments.")
T_EQ = "gated value numbering over SSA (dataflow summary of every path) compared with a reference definition"
XML = ("Every path of the functions of the codec that carry the property is summarised (results, errors, panics, final memory, calls made and the state they are made in, one arbitrary round of each loop) "
      "and compared with a reviewed reference definition of the codec; calls between functions that have a reference are compared as calls. Index bounds are taken to hold. Where the code is built too differently to be matched the obligation is reported as undecided. " + EQ)
T_XML = T_EQ + " (effects and loop rounds included)"
CHECKS = [
 ("C01", "dataflow over SSA: loop-coverage of child lists and stores of the parent link", "Every child list reachable below each node is enumerated from the types; the summary of each linking function must visit every element and store the right parent. " + EQ),
 ("C02", "effect/escape analysis over SSA plus type-level enumeration of what the deep copy handles", "Decides that nothing reachable from the argument is written or shared and that every reachable type is handled by the copying library; the library itself (barkimedes/go-deepcopy) is trusted."),
 ("C03", T_EQ, EQ),
 ("C04", "abstract interpretation over SSA: every dereference, index, conversion and assertion is shown unreachable in failing state", EQ + " Assumes the receiver is not nil and that lists hold no nil elements."),
 ("C05", T_EQ, EQ),
 ("C06", T_EQ, EQ),
 ("C07", "error-propagation and effect analysis over SSA summaries; " + T_XML, "Decides the calling contract of the writers (order of writes, every error returned, count taken from the counting writer) and that acquiring/releasing the encoder writes nothing. bufio's own contract is trusted."),
 ("C09", "type-level query: effective XML binding computed from go/types, compared with a reviewed schema table", "Recomputes from the type-checked struct definitions which XML name, kind, namespace, cardinality and value domain each field is bound to, and the child order, and compares each with a table reviewed against ISO/IEC 23009-1. The rules by which the codec turns tags into bindings are re-implemented in the analyser (trusted)."),
 ("C10", "type-level lint over go/types of the document model; " + T_XML, "Decides for every type reachable from the document roots that the codec's tag rules accept it without loss. The codec's rules are re-implemented in the analyser (trusted)."),
 ("C11", "type-level query over the effective XML binding; " + T_XML, "Decides representability of absent against zero for each optional attribute from the field's type and tag, against the reviewed table."),
 ("C12", "type-level query over the effective XML binding; " + T_XML, "Decides catch-all fields, raw content and names of the SCTE-35 model and its constructors. " + EQ),
 ("C13", "type-level query over the effective XML binding; " + T_XML, "Every namespace and prefix in the effective binding is compared with the reviewed table."),
 ("C14", T_EQ, EQ),
 ("C15", T_EQ + "; local buffers compared by their canonical write sequence", EQ + " Array bounds are taken to hold in Duration.String."),
 ("C16", T_EQ, EQ),
 ("C08", "abstract interpretation over SSA: field-by-field state of a pooled encoder at put and get, typestate of acquire/release; " + T_EQ, "Every field of the encoder is enumerated from its type; its value when put back and when taken out must be the initial one. " + EQ),
 ("C17", T_XML, XML),
 ("C18", T_XML, XML),
 ("C19", T_XML + "; dropped-error lint over SSA", XML),
 ("C20", T_XML + "; character tables compared with reviewed ones", XML),
 ("C21", "progress analysis over the control-flow graph (minimal net consumption of every cycle, bounded counters); " + T_XML, "Every loop of the tokenizer and unmarshaler is enumerated; every cycle must read more than it gives back or be bounded, and be left on a failed read. " + XML),
 ("C22", "call-graph recursion analysis (depth argument on every cycle, limit check dominates) ; " + T_XML, "Every function that reads the document is classified as non-recursive or recursive with an increased depth and a limit checked first. User-supplied UnmarshalXML methods (none in the document model) are outside. " + XML),
 ("C23", T_XML + "; provenance of the keys of the name cache", XML),
 ("C24", "interprocedural effect and escape analysis over SSA: writes to memory reachable from package-level variables, writes after publication, memory of pooled objects; " + T_XML, "Flow of references through locals, parameters, results and caches is traced; writes through values held in locals whose address is taken are traced one level. The race freedom of sync.Map, sync.Pool and the standard library is trusted. " + XML),
 ("C25", T_XML, XML),
 ("C26", T_XML, XML),
 ("C27", T_XML, XML),
 ("C28", T_XML + "; dropped-error lint over SSA", XML),
 ("C29", T_XML, XML),
 ("C30", T_EQ + "; constants compared with a table reviewed against the specifications", EQ),
 ("C31", T_EQ + "; whole-entry rule on searches of a profile list", EQ),
 ("C32", T_XML, XML),
 ("C33", T_XML, XML),
 ("C35", T_XML, XML),
 ("C34", "error-propagation and provenance analysis over SSA summaries: what the decoder is given, what becomes of every error; lint on stores to the decoder's configuration", "Every path of the reading functions and their helpers is summarised; each fallible call's error must reach the caller, the decoder's source must hold exactly the input, its target must be what is returned. Which library calls keep the bytes (bytes.NewReader, os.ReadFile, io.ReadAll and the like) is a fixed list. " + EQ),
]
NOT = {}
props = [json.loads(l) for l in open('properties.jsonl')]
claimed = {c[0] for c in CHECKS}
m = {"version": 1, "setup_cmd": "bash run.sh --build",
 "checks": [{"property": i, "quick_cmd": f"bash run.sh {i}", "thorough_cmd": f"bash run.sh {i}", "technique": t, "level": "other", "level_note": n} for i, t, n in CHECKS],
 "not_applicable": [{"property": p["id"], "reason": NOT.get(p["id"], "check not built yet")} for p in props if p["id"] not in claimed],
 "notes": "All checks are one Go program (checker/) that type-checks /repo from source on every run and analyses its SSA form; it never runs /repo's code."}
open('MANIFEST.json', 'w').write(json.dumps(m, indent=1) + "\n")
