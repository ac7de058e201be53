#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run after adding a check)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ("TLC, the Rust driver's recording of what the public API returned, and the bounds "
         "reported in the evidence file.")
MC = "TLA+ specification: TLC model checking, behaviours replayed into the code, recorded traces validated by TLC"
DONE = {
    "C01": "All states of the cursor/window machine within the bounds; every transition of it replayed on the three parsers, plus random histories, in debug and release builds.",
    "C02": "Window actions of the same machine, with the stack invariant checked by TLC and every transition replayed on the three parsers.",
    "C03": "TLC checks that the view-stack machine refines the window machine; the same histories and decodes on the three parsers are compared by a trace specification.",
    "C04": "Compound operations are defined from the primitives; TLC checks their stated consequences, and recorded calls are validated against them.",
    "C05": "Leftover operator checked on every model state; every recorded history ends with a cleanup that is validated.",
    "C21": "Error payloads are part of every operator's result; every recorded failure is compared with them.",
    "C22": "The groups taken are part of the machine's state; every printed trace is compared with them.",
    "C06": "The model's decoder is total on every input within two edits of an encoding; recorded decodes of enumerated, mutated and random inputs in checked and unchecked builds must neither panic nor hang.",
    "C07": "The decoder is specified as an operator over the parser machine; recorded decodes of enumerated, mutated and random inputs by every parser and entry point are compared with it.",
    "C08": "The encoder is specified as an operator on schemas; every encoding entry point is compared with it on enumerated and random values.",
    "C09": "TLC checks the round-trip, framing and prefix laws on the specification; encodings made by the code are decoded by the code and compared with it.",
    "C10": "All recorded counts, lengths and estimates are compared with the length of the specified encoding, also with the estimator switched on.",
    "C11": "Frames of every prefix width in the specified encoder and decoder; boundary payload sizes up to 2^30.",
    "C12": "Padding and reserved tails in the specified encoder and decoder, with and without padding checks.",
    "C13": "Bounded sequences in the specified encoder and decoder, with vector and inline storage.",
    "C14": "Ranged integers in the specified encoder and decoder with exact error payloads.",
    "C15": "Ranged floats in the specified encoder and decoder with exact error payloads.",
    "C16": "Big integers as byte sequences in the specified encoder and decoder; minimality checked by TLC.",
    "C17": "Tag dispatch in the specified encoder and decoder, and tag queries compared with the declaration.",
}
DONE.update({
    "C18": "A target's history is a state machine; every transition within the bounds and random histories are replayed on all targets in lockstep, every view compared.",
    "C19": "The partition law is checked by TLC on every history within the bounds; every transition with one and two stores is replayed on the code, every view compared.",
    "C20": "Every text up to a length over an alphabet of digits, neighbours and multi-byte characters, and random texts, through every conversion path.",
    "C23": "Histories of every container and wrapper through every constructor, accessor and conversion, compared with a sequence or value.",
    "C24": "The same scripts on builds that must not differ, compared by TLC; builds with one option each judged by the specification with that option.",
})
DONE["C25"] = ("TLC checks the laws of the specified order on representative values of every type; those pairs and random "
               "and decoded ones are compared by the code in every way and judged by the specification.")
DONE["C26"] = ("The boundaries are an operator on schemas, tied by TLC to where the specified decoder is done with a "
               "constituent; the segments of every recorded encoding are compared with them.")
REST = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = [{"property": p, "quick_cmd": f"python3 tools/check.py --prop {p} --tier quick",
           "thorough_cmd": f"python3 tools/check.py --prop {p} --tier thorough",
           "technique": MC, "level": "model_checking", "level_note": DONE[p] + " Trusts " + TRUST}
          for p in ids if p in DONE]
na = [{"property": p, "reason": REST.get(p, "check under construction")} for p in ids if p not in DONE]
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
