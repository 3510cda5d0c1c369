#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run

TECH = {
    "V": ("ASan+UBSan build, generated structures from an independent encoder model, value-by-value oracle on each parse result",
          "Held on the generated structures (bounded number, seeded); assumes the encoder model written from ITU-T H.265 is right where it agrees with the library on every case."),
    "B": ("ASan+UBSan build, random operation sequences and buffers against an executable reference model of the bit stream",
          "Held on the executed operation sequences; the reference model is an independent bit-at-a-time reader and writer."),
    "F": ("ASan+UBSan build, generated streams in every container, oracle: reference splitter and encoder model",
          "Held on the generated streams; the splitter model is written from the documented framing rules."),
    "H": ("ASan+UBSan build, random unit histories checked online against a sequential model of the parameter-set store",
          "Held on the generated histories; broken units are cut or out-of-range variants of generated ones."),
    "D": ("ASan+UBSan build, generated parameter sets and streams against the standard's equations",
          "Held on the generated cases."),
    "P": ("ASan+UBSan build, generated packets and records against the encoder model and direct parsing",
          "Held on the generated packets."),
    "O": ("ASan+UBSan build, dump text parsed back and compared with the encoder model and across output options",
          "Held on the generated units and option combinations."),
    "O03": ("real command-line binary under ASan+UBSan on generated files and options, output compared with the library's own dump",
            "Held on the generated files and argument combinations."),
    "O04": ("real command-line binary under ASan+UBSan, report re-read and balanced against the generated units",
            "Held on the generated files; conservation oracle over the report rows."),
    "R01": ("AddressSanitizer and UndefinedBehaviorSanitizer over generated, mutated and random streams in exact-size buffers",
            "No report on the executed inputs; sanitizers do not see every intra-object overflow."),
    "R02": ("AddressSanitizer and UndefinedBehaviorSanitizer over each structure parser with arbitrary bytes and context arguments",
            "No report on the executed calls."),
    "R03": ("AddressSanitizer and UndefinedBehaviorSanitizer while dumping and querying every result of hostile inputs",
            "No report on the executed dumps and queries."),
    "R04": ("differential execution under heap and stack poison patterns, plus comparison with a second build whose local variables start with another value",
            "Held for the executed inputs: a dependence shows only if the poison patterns lead to different visible results or memcheck sees a tainted branch."),
    "R05": ("executed-edge counter (sanitizer coverage callbacks) and allocation accounting against linear bounds",
            "Held for the executed inputs; bounds are generous multiples of the input length, timeouts are not verdicts."),
    "R06": ("repeat-parse differential monitor across addresses, alignments and interleaved foreign parses",
            "Held on the executed repetitions."),
    "R07": ("ThreadSanitizer build, threads parsing, dumping and querying own and shared results, compared with a sequential run",
            "No race report and equal results on the executed interleavings."),
}

def tech(p):
    return TECH.get(p) or TECH[p[0]]

def main():
    checks, na = [], []
    with open(os.path.join(V, "properties.jsonl")) as f:
        ids = [json.loads(l)["id"] for l in f if l.strip()]
    for p in ids:
        have = all(os.path.exists(os.path.join(V, "harness", m)) for m in run.mode_of(p)[0])
        if not have:
            na.append(dict(property=p, reason="check under construction"))
            continue
        t, note = tech(p)
        checks.append(dict(property=p, quick_cmd="python3 run.py check " + p, thorough_cmd="VERIF_TIER=thorough python3 run.py check " + p,
                           technique=t, level="exploration", level_note=note))
    m = dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na,
             notes="run.py builds /repo's sources with the harness under /verif/harness, runs 8 processes per check and "
                   "gives the verdict; /verif/build holds content-addressed build output and replay files (ignored by git). "
                   "No hooks in /repo are needed.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

main()
