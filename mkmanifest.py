#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
notes = {
 "C01": ("exhaustive enumeration of production lists, compared with the declared grammar", "Every production list within the listed bounds is built on the real code and every accessor compared with the list itself."),
 "C02": ("explicit-state enumeration of grammars and hash visiting orders against reachability-based FIRST", "Every grammar within bounds under every visiting order of up to four non-terminals; oracle is graph reachability, cross-checked by rewriting (mc self)."),
 "C03": ("explicit-state enumeration of grammars and hash visiting orders against reachability-based FOLLOW", "Every grammar within bounds under every visiting order of up to four non-terminals; oracle is graph reachability, cross-checked by rewriting (mc self)."),
 "C04": ("exhaustive enumeration of grammars, visiting orders, table cells and perturbed input sets", "Every table cell of every grammar within bounds, with computed sets and with every one-element change of exact sets."),
 "C05": ("exhaustive enumeration of (grammar, input) pairs on the real parser; derivation checked node by node", "Every accepted parse within bounds is validated as a derivation of the consumed tokens with their lexemes."),
 "C06": ("exhaustive enumeration of LL(1) grammars and inputs against a span-fixed-point recogniser", "Acceptance equals membership for every end-marked LL(1) grammar and input within bounds."),
 "C07": ("exhaustive enumeration of grammars and inputs against a span-fixed-point recogniser", "Acceptance equals membership within bounds, except the listed finding KF1, which is delimited by an exact model of the implemented search."),
 "C08": ("bounded model checking of the ordered-choice search: model tree replayed against the real parser", "The model's unique answer equals the real tree for every grammar and input within bounds, ambiguous ones included."),
 "C09": ("exhaustive enumeration of grammars and inputs with process-level crash and stall detection", "No panic, crash, stall or fix for any grammar and input within bounds, inputs over every kind of token type."),
 "C10": ("exhaustive enumeration of rejected inputs; report structure checked recursively", "Every error report within bounds spells productions at every level."),
 "C11": ("exhaustive enumeration of rejected inputs; report replayed against prediction and token positions", "Every error report within bounds is complete and each failure is real."),
 "C12": ("enumeration of solver behaviours (declining, fixing at each position) against the solver-free run", "Within bounds no solver is consulted for parseable tokens and declining changes nothing."),
 "C13": ("exploration of the tree of solver answer sequences, call log compared with a reference model", "All answer sequences with up to two fixes within bounds; the sequence of calls and their arguments equals the model's."),
 "C14": ("exploration of the tree of solver answer sequences, result compared with a reference model", "All answer sequences with up to two fixes and all resume positions (as listed) within bounds; results equal the model's."),
 "C15": ("exhaustive enumeration of operation histories on shared parsers against fresh parsers", "All operation sequences up to the depth plus one history covering all operation pairs, and all ordered pairs of 51 grammars living one after the other; freed memory is used again at the same address."),
 "C16": ("exhaustive enumeration of hash visiting orders, symbol types and declaration interleavings", "All visiting orders of up to four non-terminals, colliding and heap symbols, declaration interleavings: identical observations."),
 "C17": ("exhaustive enumeration of lexeme assignments against the distinct-lexeme run", "All assignments over three lexeme values for short inputs, fixed patterns for longer ones; all token pairs for equality."),
 "C18": ("exhaustive enumeration of suspension points, abort points and preemption-bounded thread schedules on the real code", "Every call into caller code of every parse and construction within bounds is suspended at (another one runs inside) and aborted at (panic); all schedules of two threads with two (thorough three) preemptions."),
 "C19": ("exhaustive enumeration of supplied set variants and inputs against the ordered-search model over those sets", "Every one-element (small grammars: two-element) change of the exact sets, empty and full sets, every input within bounds."),
 "C20": ("exhaustive enumeration of pumped words; calls into caller code counted at three sizes on the real code", "Every decomposition of every sentence within bounds that can be pumped, complete, truncated and corrupted."),
 "C22": ("exhaustive enumeration of pumped words; heap and stack measured at growing sizes on the real code", "Every decomposition of every sentence within bounds that can be pumped, complete, truncated and corrupted; most memory held, all memory allocated and stack depth."),
 "C23": ("exhaustive enumeration of link patterns repeated to chains; calls into caller code counted at doubling sizes on the real code", "Every pattern of one or two sides within bounds over the link itself, the next two, a shared terminal and its own, at 6 to 48 (thorough 96) links; six ways the initial symbol uses the links, four kinds of end."),
 "C21": ("exhaustive enumeration of histories and abort points on the real code with a counting allocator as monitor", "Live memory after every history of the listed kinds (whole lives, new inputs, repeated inputs, a panic at every call into caller code) does not grow."),
}
checks = []
for i, (t, n) in notes.items():
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "model checking: " + t,
        "level": "model_checking",
        "level_note": n + " Trusts the reference model in mc/src and the bounds stated in the evidence file.",
    })
json.dump({
    "version": 1,
    "setup_cmd": "./check.sh build && ./check.sh self",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks: everything is observed through the public API. known_findings.txt lists recorded and repaired defects.",
}, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
