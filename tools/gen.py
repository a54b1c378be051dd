#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, CLAIM, NA = [], {}, {}


def prop(id, title, statement, over, text, why, files, mech, level_note=None, na=None, technique=None, level="proof", **kw):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw)))
    if na:
        NA[id] = na
    else:
        CLAIM[id] = dict(level=level, note=level_note, technique=technique or
                         "contracts on the real functions; verification conditions over their LLVM IR, loop invariants, discharged by z3")


UTF = "include/strf/detail/utf.hpp"
prop("C01", "UTF transcoding writes exactly the specified code units",
     "Transcoding between UTF-8, UTF-16 and UTF-32 consumes the input sequence by sequence, writes for each valid sequence the encoding of its code point and for each maximal invalid subpart exactly one U+FFFD, and reports each invalid subpart (position and length) to the error notifier. "
     "It never reads outside the source nor writes outside the destination, and stops exactly when the input ends, when the next sequence does not fit in the remaining space, or at the first invalid sequence if the stop flag is set, returning the matching source and destination positions and stop reason. "
     "With the lax surrogate policy unpaired surrogates are valid and are transcoded as if they were code points.",
     ["inputs"], "All source contents and lengths, all destination sizes, all flag combinations, with and without notifier, the nine UTF pairs and the char types char, char8_t, char16_t, char32_t, wchar_t.",
     "Tests use a few hundred hand-written strings; malformed sequences, truncation at every position and every destination size form an unbounded space.",
     [UTF], [("static_transcoder::transcode", UTF), ("utf8/utf16 validity helpers", "include/strf/detail/utf.hpp: first_2_of_3_are_valid, first_2_of_4_are_valid, is_surrogate")],
     "Full proof per pair: unbounded input, functional postcondition, memory safety, termination. Induction over decoding steps is a meta-level schema whose step cases are obligations.")
prop("C02", "Pre-computed UTF transcoding size and stop equal the real transcoding",
     "The size calculation for a UTF pair, given a limit, returns exactly the number of code units, the source position and the stop reason that the real transcoding into a destination of that many units would produce, with the same flags. "
     "It never reads outside the source and never returns a size above the limit.",
     ["inputs"], "All source contents and lengths, all limits >= 0, all flags, the nine UTF pairs and their character types.",
     "Buffer pre-sizing relies on this equality for every input; tests compare sizes for a few strings only.",
     [UTF], [("static_transcoder::transcode_size", UTF)],
     "Full proof per pair against the same specification as C01; no bound.")
prop("C03", "Unchecked UTF transcoding agrees with the checked one on valid input",
     "For valid input (with the lax flag, unpaired surrogates are valid) the unchecked transcoding and unchecked size calculation produce exactly the same output units, size, positions and stop reason as the checked versions for every destination size, and never split a sequence. "
     "They never access memory outside the source and destination ranges and never report an error.",
     ["inputs"], "All valid source contents and lengths, all destination sizes and limits, both surrogate policies, the nine UTF pairs and their character types.",
     "The unchecked paths skip validation and scan backwards for sequence boundaries; whether they stay in bounds and stop at the right boundary depends on every possible cut position.",
     [UTF], [("static_transcoder::unsafe_transcode / unsafe_transcode_size", UTF), ("bypass_unsafe_transcode", UTF)],
     "Full proof per pair under the precondition that the input is valid; no bound.")
exec(open(os.path.join(ROOT, "tools", "more_props.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "more_props.py")) else None

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
man = dict(version=1, setup_cmd="python3-vt -c \"import z3; print(z3.get_version_string())\" && clang++ --version | head -1",
           checks=[dict(property=i, quick_cmd="python3-vt check.py %s --tier quick" % i,
                        thorough_cmd="python3-vt check.py %s --tier thorough" % i,
                        technique=c["technique"], level=c["level"], level_note=c["note"]) for i, c in sorted(CLAIM.items())],
           not_applicable=[dict(property=i, reason=r) for i, r in sorted(NA.items())],
           notes="No hooks in /repo. Every check compiles /repo/include to LLVM IR on each run and discharges the verification conditions of the functions under contract.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
