"""Prints the known findings of a property (none suppresses anything by itself)."""
import json, os, sys
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
for e in json.load(open(f)).get("findings", []):
    if e["property"] == sys.argv[1]:
        print("KNOWN-FINDING: property=%s %s" % (e["property"], e["what"]))
