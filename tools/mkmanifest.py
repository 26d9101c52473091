"""Writes MANIFEST.json.  DONE lists the properties whose checks are claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
DONE = {
 "C05": ("model_checking", "TLA+ contract (Subbytes.tla) evaluated by TLC on recorded operation histories of real views",
         "Exhaustive over all pairs of nested windows of short data and all probes within the bounds, sampled beyond; trusts CPython and TLC."),
 "C06": ("model_checking", "TLA+ generator model checked by TLC; complete recorded cycles validated against NumGen.tla",
         "Exhaustive over all steps and both signs for narrow widths; wide generators are observed on a prefix of their cycle only."),
}
try:
    exec(open(os.path.join(V, "tools", "claims.py")).read())
except FileNotFoundError:
    pass
m = dict(version=1, setup_cmd="/opt/venv/bin/python bin/setup.py",
  hooks=dict(guard="VERIF_NO_HOOKS", enable="No hooks are compiled into /repo: the harness substitutes threading, time and the UDP socket layer from outside before importing snmp.", source_commits=[]),
  checks=[dict(property=p["id"], quick_cmd=f"/opt/venv/bin/python bin/check.py {p['id']}",
               thorough_cmd=f"VERIF_TIER=thorough /opt/venv/bin/python bin/check.py {p['id']}",
               evidence_file=f"evidence/{p['id']}.json", technique=DONE[p["id"]][1], level=DONE[p["id"]][0], level_note=DONE[p["id"]][2])
          for p in props if p["id"] in DONE],
  not_applicable=[dict(property=p["id"], reason="check not built yet") for p in props if p["id"] not in DONE])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
