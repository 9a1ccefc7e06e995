#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks below and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
AI = "abstract interpretation of the SSA form"
NOTE = "Sound for the code analysed under the listed assumptions of the evidence file (models of the standard library, non-aliasing of unrelated arguments)."
checks = {
    "C01": (AI, NOTE),
    "C04": (AI + " (failures as typestate; decoders over lists of BER tokens)", NOTE),
    "C05": (AI, NOTE),
    "C06": (AI, NOTE),
    "C07": (AI + " (typestate of the writer)", NOTE),
    "C08": (AI + " (primitives on symbolic bytes; decoders over lists of BER tokens in both length forms)", NOTE),
    "C09": (AI + " (encoders and decoders executed against each other over lists of BER tokens)", NOTE),
    "C10": (AI, NOTE),
    "C11": (AI + " (decoders over lists of BER tokens)", NOTE),
    "C12": (AI, "Trees of at most six levels on each branch, of every shape within that; " + NOTE[0].lower() + NOTE[1:]),
    "C13": (AI, NOTE),
    "C02": (AI + " (loops and recursions: input consumed or exit test nearer at every way back)", NOTE),
    "C03": (AI + " (sizes of allocations and of growing loops against the bytes left)", NOTE),
    "C14": (AI + " (lists of BER tokens against the grammar of Glow; tables of the specifications)", NOTE),
    "C15": (AI + " (updates against the merge of what the queries say; messages as lists of BER tokens)", NOTE),
    "C16": (AI + " (record of the calls of listeners)", NOTE),
    "C17": (AI, NOTE),
    "C18": (AI, NOTE),
    "C19": (AI, NOTE),
    "C20": (AI, NOTE),
    "C21": (AI, NOTE),
    "C22": (AI + " (typestate of the connection, interference between goroutines)", NOTE),
    "C23": ("lockset analysis by abstract interpretation of the SSA form", NOTE),
    "C24": (AI + " (typestate of requests and timers)", "Exhaustive over the orders of events for tree requests of up to two elements and one level below; " + NOTE[0].lower() + NOTE[1:]),
    "C25": (AI + " (effects on objects which existed before the query)", NOTE),
    "C26": ("dataflow over the SSA form (formats, arguments, and the functions which pass them on); texts as terms by abstract interpretation", "Arguments which are interfaces already, and lists of arguments built in loops, are not typed; " + NOTE[0].lower() + NOTE[1:]),
    "C27": (AI + " (constructors, then methods, on what may be nil)", "Values which only may be nil are not counted; decoders of contents are followed to a bounded depth in the quick tier; " + NOTE[0].lower() + NOTE[1:]),
    "C29": (AI, NOTE),
    "C31": (AI + " (scripts of requests and turns of the service loop; bytes given to the connection)", "Bounded scripts: up to 13 requests before, after and during the exchange, a message of two packets, and the queue filled until it refuses; writes succeed; " + NOTE[0].lower() + NOTE[1:]),
}
na = {
    "C28": "The decoded number equals the encoded one only through bit arithmetic over unbounded shifts and loops (base-128 and base-256 digits, float significands); no dataflow or typestate argument in reach bounds these runtime values, and enumerating or solving them is another technique.",
    "C30": "Bounded answers and equality with a remote device's tree quantify over network timing and the peer's behaviour, which the source does not determine.",
}
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": [], "not_applicable": []}
for p in props:
    if p in checks:
        t, n = checks[p]
        m["checks"].append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough", "technique": t, "level": "other", "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": na.get(p, "Not decided yet: the static check for this property is under construction.")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
