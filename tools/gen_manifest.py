"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "R01": ("Hypothesis: generated flat event lists over all IDs and structured projects; load/save round trip", "byte equality with the input"),
 "R02": ("Hypothesis: mutated headers against an independent header validator (differential)", "independent reference of the header rules"),
 "R03": ("Hypothesis: generated event sequences against an independent framing codec (differential)", "independent encoder/decoder of the container"),
 "R04": ("Hypothesis: generated strings and versions, reference encoding, edit/save/reload", "reference text codec"),
 "R05": ("Hypothesis: generated channels read against an independent layout table (reference model)", "layout tables of spec.py"),
 "R06": ("Hypothesis: stateful edit sequences against a byte-level reference document", "reference document updated by the same edits"),
 "R07": ("Hypothesis: stateful flag sequences over random shared fields against a bit model", "bit model"),
 "R08": ("Hypothesis: model-based histories over nested event views against a list model", "plain list model of views"),
 "R09": ("Hypothesis: generated refused assignments; state and saved bytes before = after", "exception class + unchanged reference document"),
 "R10": ("Hypothesis: fault injection (unserialisable value anywhere) and save histories; destination compared", "folder listing before/after; reference bytes"),
 "R11": ("Hypothesis: generated racks against the reference document's structure", "structure by construction"),
 "R12": ("Hypothesis: generated patterns and edits against the reference document", "structure by construction"),
 "R13": ("Hypothesis: generated arrangements and edits against the reference document", "structure by construction"),
 "R14": ("Hypothesis: generated mixers and edits against the reference document", "structure by construction"),
 "R15": ("Hypothesis: generated plugin states and edits against layout tables and a VST record model", "layout tables, record model"),
 "R16": ("Hypothesis: generated stored and user-facing values; inverse relations, repeated save/load", "independent conversions, inverse relations"),
 "R17": ("Hypothesis: generated metadata, versions and assignments against the reference document", "reference document, version order model"),
 "R18": ("Hypothesis: unknown content injected into generated projects, edit sequences", "reference document"),
 "R19": ("Hypothesis: stateful interleavings of handles, reads and edits over one and two projects", "reference document per project"),
 "R20": ("Hypothesis: mutation fuzzing of generated and sample files against an independent framing decoder", "independent decoder of the damaged bytes"),
 "R21": ("Hypothesis: everything reachable in generated and edited projects is printed", "no failure; identifying values occur in the text"),
 "R22": ("Hypothesis: generated remote controller payloads against the bit layout", "own decoding of the stored word"),
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    checks.append({"property": i, "quick_cmd": "/opt/venv/bin/python run.py %s" % i,
                   "thorough_cmd": "VERIF_TIER=thorough /opt/venv/bin/python run.py %s" % i,
                   "technique": T[i][0], "level": "exploration",
                   "level_note": "Generated-input search, seeded by VERIF_SEED; oracle: %s." % T[i][1]})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [],
           "notes": "Checks import pyflp from /repo's working tree; nothing is built."
           " No hooks in /repo."}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
