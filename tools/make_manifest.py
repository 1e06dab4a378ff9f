"""Writes MANIFEST.json from the registry and the notes below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pbt.registry import PROPS  # noqa: E402

TECH = {
    "C02": "property-based testing: generated token sequences, control-word vocabulary oracle and reference model",
    "C03": "property-based testing: generated documents, structural LaTeX parser as oracle and reference model",
    "C13": "property-based testing: exhaustive and generated symbol tokens against frozen tables and Unicode data",
    "C15": "property-based testing: fault injection of child counts, fault oracle of the reference model",
    "C16": "metamorphic property-based testing: generated surface forms of the same tree",
    "C17": "metamorphic property-based testing: generated prefixed forms of the same tree",
    "C18": "metamorphic property-based testing: generated broken attributes injected into documents",
    "C19": "fuzzing: truncations, structural corruptions and markup soup; rejection oracle and XML parser differential",
    "C20": "model-based testing of conversion histories, controlled thread schedules, process differential",
    "C21": "property-based testing: generated host documents, each formula converted alone as oracle",
    "C23": "property-based testing: generated deep and large documents, call-count growth and reference model",
    "C24": "metamorphic property-based testing: parts plugged into generated contexts",
}
ASSUME = ("Explores generated and enumerated inputs only, no proof of absence. Trusts pbt/model.py (reference rendering written from the "
          "documentation, tests and code, symbol tables frozen in pbt/tables.json), Hypothesis and expat.")
m = {
    "version": 1,
    "setup_cmd": "python3-vt -c \"import hypothesis, sys; sys.path.insert(0, '.'); import pbt.registry\"",
    "checks": [{
        "property": k,
        "quick_cmd": "python3-vt run.py %s --tier quick" % k,
        "thorough_cmd": "python3-vt run.py %s --tier thorough" % k,
        "technique": TECH.get(k, "property-based testing: generated trees against a reference model"),
        "level": "exploration",
        "level_note": ASSUME,
    } for k in sorted(PROPS)],
    "not_applicable": [],
    "notes": "Replay a failure with: python3-vt run.py --replay FILE. VERIF_REPO points the checks at another tree (default /repo). No hooks in /repo.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
