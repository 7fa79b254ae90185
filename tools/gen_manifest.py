#!/usr/bin/env python3
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
NA={
 "N01":"pure functions of their input: no schedule, time, I/O, crash or second party for the property to depend on, so simulation decides nothing a direct test does not",
}
TODO=set(sys.argv[1:])
for l in open(V+'/properties.jsonl'): pass
props=[json.loads(l)["id"] for l in open(V+'/properties.jsonl')]
checks=[]; na=[]
for p in props:
    if p in NA: na.append({"property":p,"reason":NA[p]})
    elif p in TODO: na.append({"property":p,"reason":"not claimed yet: the simulated world for it is being built"})
    else:
        checks.append({"property":p,"quick_cmd":"bin/check %s --tier quick"%p,"thorough_cmd":"bin/check %s --tier thorough"%p,
          "evidence_file":"evidence/%s.json"%p,
          "technique":"deterministic simulation with fault injection: seeded search over schedules and faults",
          "level":"exploration",
          "level_note":"Real library code runs against a simulated provider, DBMS, scheduler and clock; every run is replayable from its seed. Gives evidence for the seeds explored, not proof; trusts that the simulated provider and DBMS keep the documented service contracts."})
m={"version":1,"setup_cmd":"bin/setup","hooks":{"guard":"none (no hooks were needed)","enable":"no guard: the simulator uses the library's own interfaces and link-time wrapping","source_commits":[]},
   "checks":checks,"not_applicable":na,
   "notes":"See DESIGN.md. Replay a violation with: build/<hash>/sim replay <file> --trace"}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
