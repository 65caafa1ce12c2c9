#!/usr/bin/env python3
import json,os
here=os.path.join(os.path.dirname(__file__),"..")
props=[json.loads(l) for l in open(os.path.join(here,"properties.jsonl"))]
NA={}
claimed=os.environ.get("CLAIM")
levels={"C10":"fault_enumeration"}
notes={}
exec(open(os.path.join(here,"tools","levelnotes.py")).read()) if os.path.exists(os.path.join(here,"tools","levelnotes.py")) else None
CL=[l.strip() for l in open(os.path.join(here,"tools","claimed.txt"))] if os.path.exists(os.path.join(here,"tools","claimed.txt")) else []
m=dict(version=1,setup_cmd="bash tools/setup.sh",
 hooks=dict(guard="none",enable="no hooks in /repo: the library is compiled unmodified from the working tree with compiler instrumentation and its libc symbols renamed at object level",source_commits=[]),
 checks=[],not_applicable=[])
for p in props:
    i=p["id"]
    if i in CL:
        m["checks"].append(dict(property=i,quick_cmd="bash tools/check.sh %s"%i,thorough_cmd="bash tools/check.sh %s"%i,
            technique="deterministic simulation with fault injection: seeded schedules of simulated components in lockstep with a reference model",
            level=levels.get(i,"exploration"),level_note=notes.get(i,"seeded sampling of schedules and faults, not exhaustive; trusts the reference model in sim/")))
    else:
        m["not_applicable"].append(dict(property=i,reason=NA.get(i,"check not built yet")))
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1)
