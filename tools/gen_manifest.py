"""Writes MANIFEST.json from properties.jsonl and the list of implemented checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = {
 "link": "deterministic simulation of a faulty serial link (UART, FIFO, host reads) into the real parser; history checked against a reference model",
}
NA = {
 "C26": "a pure function from a token stream to a token stream inside the compiler: no history, schedule, time, I/O, memory or fault it could depend on, so simulation has nothing to decide; what the accepted descriptions do at run time is decided by C10, C11 and C17",
}
CLAIMED = json.load(open(V + "/tools/claims.json"))
checks = []
na = []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        c = CLAIMED[i]
        checks.append({
            "property": i,
            "quick_cmd": f"VERIF_TIER=quick bash check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
            "technique": c["technique"],
            "level": "exploration",
            "level_note": c["note"],
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check still being built")})
json.dump({
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: every seam the simulation needs (reads, buffers, sinks, packet handlers) is public API, "
             "and the command-line tool's serial port and clock are replaced at its dependency. "
             "'bash replay.sh FILE' replays a recorded violation.",
}, open(V + "/MANIFEST.json", "w"), indent=1)
