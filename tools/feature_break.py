"""The library builds with its default features but not with others: writes that down as a violation of C22."""
import json, sys
log, out = sys.argv[1:]
json.dump({"property": "C22", "violation": "does-not-build", "build": True,
           "detail": open(log, errors="replace").read()[-4000:]}, open(out, "w"), indent=1)
print("does-not-build: the library builds with its default features but not with others")
print("VIOLATION property=C22 replay=" + out)
