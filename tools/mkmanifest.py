# Regenerates MANIFEST.json: a check for every property that has checks/cNN.py.
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = dict(C01="Pool", C02="Pipes", C03="Pipes", C04="Stream", C05="Stream", C06="Calls", C07="Wire+WireSender", C08="Defrag", C09="Input", C10="Envelope",
            C11="Keys", C12="Host", C13="Transport", C14="Transport+Wrap", C15="Reply", C16="Alive", C17="Winrs", C18="Copy", C19="Fetch", C20="Builder",
            C21="Strings", C22="Clixml", C23="Negotiate", C24="Discover", C25="Convenience", C26="Header+Timeouts", C27="Shell", C28="Metadata", C29="Records", C30="Types", C31="Connect", C32="Opening")
NOTE = dict(
 C07="TLC judges the fragments recorded from real requests (receiver automaton); sizes are chosen around the boundaries, not all sizes.",
 C08="TLC explores all splits, interleavings and single faults within small bounds; random larger ones are predicted by TLC.",
)
GENERIC = ("TLC explores the specification exhaustively within the stated bounds and checks its action properties; every edge of the explored graph (quick: a seeded "
           "sample where it is large) is replayed on the real code, and longer random histories are predicted or validated by TLC. Trusts TLC, the drivers "
           "(independent codec and fake server) and the bounds; nothing is proved beyond them.")
checks, na = [], []
for ln in open(os.path.join(R, "properties.jsonl")):
    i = json.loads(ln)["id"]
    if os.path.exists(os.path.join(R, "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="./check.sh %s quick" % i, thorough_cmd="./check.sh %s thorough" % i,
                           technique="TLA+ specification (specs/%s.tla) checked with TLC, bound by replaying its transitions and validating recorded traces on the real code" % SPEC[i].replace("+", ".tla, specs/"),
                           level="model_checking", level_note=(NOTE.get(i, "") + " " + GENERIC).strip()))
    else:
        na.append(dict(property=i, reason="its specification and check are not built yet (planned: %s.tla)" % SPEC[i]))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the drivers observe the public API and the bytes on the wire. See DESIGN.md.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
