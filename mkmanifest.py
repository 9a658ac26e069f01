#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below (run by hand; no check runs it)."""
import json
T = {
 "C01": "property-based testing: generated streams and chunkings, metamorphic relation (any chunking and call pattern gives the one-shot results) with all cut pairs of short streams; shrinking to a replay tape",
 "C02": "property-based testing: structured random streams against a reference framing model written from the protocol; all announced lengths around the limits",
 "C03": "stateful property-based testing: chunked streams through stores of every capacity, followed result by result against a nondeterministic reference model",
 "C04": "fuzzing: hostile streams and payloads through the parser and every accessor, iterator, debug and JSON form; oracle: no panic, no write outside the store, results bounded by the input",
 "C05": "property-based testing: generated and exhaustively enumerated payload lengths and byte values against a table of acceptance rules, and typed/unknown delivery",
 "C06": "property-based testing: random payloads of every message type, each accessor against a golden decoder driven by a field table",
 "C07": "property-based testing: all 8/16-bit words and structured wider words against golden enum and flag tables",
 "C08": "property-based testing: generated record lists against a slice-based reference decoder, all record counts",
 "C09": "property-based testing: each builder field set alone over its values, against a golden encoder",
 "C10": "property-based testing: round trips builder -> frame -> parser -> accessors and received frame -> builder -> frame",
 "C11": "property-based testing with injected writer faults: all ways of emitting a builder compared, failing writers modelled",
 "C12": "property-based testing: scaled values on and off the grid against exact rounding, all grid points of narrow fields",
 "C13": "property-based testing: every configuration key with all narrow and spread wide values, round trip and golden encoding",
 "C14": "property-based testing: exhaustive pairs of configuration keys against the golden key table",
 "C15": "property-based testing: conversions of random and boundary payloads against directly computed physical values; all calendar days",
 "C16": "property-based testing: JSON and debug output of random packets, read by a duplicate-preserving reader, against the golden decoder",
 "C17": "property-based testing: all 65536 class/id pairs of requests and acknowledgements and all rates against the golden table",
 "C18": "stateful property-based testing: operation histories (random, and all short ones) against a queue model, with canaries",
 "C19": "property-based testing of generated programs: random packet declarations compiled by the macros, random payloads and values through the generated code, against the meaning of the declaration",
 "C20": "property-based testing of generated programs: one fault injected into a random consistent declaration, the compiler must refuse it and accept the consistent form",
 "C23": "property-based testing of generated programs: random enum and flag-set definitions compiled by the macros, all codes and bits, against the definition",
 "C21": "differential property-based testing: the same generated cases through the crate built with each of the 8 feature sets",
 "C24": "property-based testing: round trip of generated values through their serialised form, as text and inside collections; small types enumerated",
 "C25": "stateful property-based testing of the program as a process: generated options, acknowledgement exchanges and received streams (cut and paused anywhere) over a pseudo terminal, against a golden model of the bytes sent and a reference of what is printed",
 "C26": "property-based testing with provoked errors (damaged checksums, small stores, impossible times, refusing writers): value and text of the error against the known cause",
 "C27": "differential and model-based property-based testing: generated streams, cuts and capacities over generated conforming stores of several layouts that check every access, against the library's own store and the reference parser",
 "C22": "stateful property-based testing: setter sequences of the aiding builder against a model, all calendar days",
}
NOTE = {
 "C03": "the store must hold at least the 6 header bytes; the parser is drained after every chunk",
 "C24": "finite numbers; one defect (the antenna setting) is recorded as a known finding",
 "C25": "streams containing a message whose debug form panics (known finding of C04) are left out",
 "C04": "stores of at least 4 bytes; two kinds of undefined serial-port modes panic and are recorded as a known finding",
}
import os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": T[i], "level": "exploration",
                       "level_note": NOTE.get(i, "generated-input search with an explicit oracle; finite sub-spaces are enumerated completely where the check says so")})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks are needed: the checks use the public interface only", "source_commits": []},
     "notes": "Every check builds the harness against /repo's working tree into .build (ignored by git)."}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
