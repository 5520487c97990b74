"""Writes MANIFEST.json; run with the interpreter of the checks after changing
a property module:  /opt/venv/bin/python tools/gen_manifest.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from pbt.core import load_prop                                   # noqa: E402

TECH = {
    "C01": "property-based testing: write/load round trip against an independent model",
    "C02": "property-based testing: model-encoded files in any chunk order, differential",
    "C03": "property-based testing: independent byte-level encoder and strict parser as oracle",
    "C04": "generated files with exhaustive truncation and field faults; rejection oracle",
    "C05": "property-based testing: differential (mapped against in-memory) and model",
    "C06": "property-based testing: reference model of the vocabulary",
    "C07": "property-based testing: brute-force n-gram enumeration as oracle",
    "C08": "property-based testing: independent 64-bit FNV-1a implementation as oracle",
    "C09": "property-based testing: independent fastText hash implementation as oracle",
    "C10": "property-based testing: reference model of the n-gram table",
    "C11": "property-based testing: float64 reference model of lookups",
    "C12": "stateful property-based testing: operation histories against a model, and concurrent queries",
    "C13": "property-based testing: exhaustive float64 ranking as validity oracle",
    "C14": "property-based testing: exhaustive float64 ranking as validity oracle",
    "C15": "property-based testing: reference conversion and metamorphic lookups",
    "C16": "property-based testing: dense float64 reconstruction as reference",
    "C17": "property-based testing: the wrapped numpy array as reference",
    "C18": "property-based testing: independent encoder and strict parser, both directions",
    "C19": "property-based testing: independent encoder and strict parser, both directions",
    "C20": "property-based testing: independent fastText codec and averaging, both directions",
    "C21": "property-based testing: malformed bytes planted in generated files",
    "C22": "property-based testing: tool runs on generated files, independent parsers",
    "C23": "property-based testing: tool runs on generated files, reference lookups",
    "C24": "property-based testing: tool runs, exhaustive float64 ranking as oracle",
    "C25": "property-based testing: round trip, generated TOML formattings, dict model",
    "C26": "generated files with exhaustive truncation and structural faults",
    "C27": "fault injection: every writer with a write limit at every byte",
    "C28": "property-based testing: generated consistent and inconsistent chunk sets",
    "C29": "structure-aware mutation fuzzing of all loaders with well-formedness and differential oracles",
    "C30": "property-based testing: copies compared with the model and with the original",
    "C32": "property-based testing: the other properties' models under generated process-wide settings",
    "C31": "stateful property-based testing: effects of operation histories on files and process state",
}


def main():
    checks = []
    for pid in sorted(TECH):
        mod = load_prop(pid)
        cmd = f"/opt/venv/bin/python check.py {pid} --tier "
        n = sum(s.quick for s in mod.SUBS)
        note = (f"Seeded search, not a proof: about {n} generated cases per quick run and "
                f"{sum(s.thorough for s in mod.SUBS)} per thorough run, each judged by an "
                "oracle that shares no code with the package. " + " ".join(mod.ASSUMPTIONS))
        checks.append(dict(property=pid, quick_cmd=cmd + "quick", thorough_cmd=cmd + "thorough",
                           technique=TECH[pid], level=mod.LEVEL, level_note=note))
    doc = dict(version=1, setup_cmd="/opt/venv/bin/python check.py --build-only",
               checks=checks, not_applicable=[],
               notes="No hooks are needed. Defects found and repaired are in KNOWN_FINDINGS.md; "
                     "replay a failure with: /opt/venv/bin/python check.py --replay FILE")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


main()
