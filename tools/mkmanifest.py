#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
here=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(os.path.join(here,"properties.jsonl"))]
TECH="abstract interpretation of the SSA form (relational numeric domain, allocation-site heap, loop fixpoints)"
HOW={
 "writer": "most general client of response.NewWriter: abstract states closed under all exported methods of the wrapper",
 "serve": "Response.Serve against an arbitrary writer and body",
 "adaptor": "Adaptor.ServeHTTP against an arbitrary handler, response and writer",
 "builder": "most general client of response.Builder: abstract states closed under all setters, then Build",
 "body": "most general client of the body constructors: abstract states of one body and of the state it shares with copies, closed under all operations on it and on its copies",
 "payload": "payload constructors with an ownership typestate for pooled buffers",
 "construct": "FromReader and FromReaderAndLength with every combination of capabilities",
 "mock": "most general client of the mock reader: any script, one arbitrary element of which is known, closed under all calls; wrappers against an opaque reader",
}
CLAIM={
 "R01":"writer","R02":"writer","R03":"writer","R04":"writer",
 **{"B%02d"%i:"body" for i in range(1,16)},"B17":"body",
 "B16":"payload",
 **{i:"builder" for i in "R05 R06 R07 R10 R11".split()},
 "M01":"mock","R08":"serve","R09":"serve","H01":"adaptor","H02":"adaptor",
}
NA={
 "N01":"round trip equality of encodings is decided inside encoding/json and protobuf for runtime values of any type; no static argument over this repository's code settles it (that the complete encoding is what the body holds is B16)",
 "N02":"progress and blocking depend on when a live source delivers data and on how often it returns (0, nil); a static argument has no bound on either",
 "N03":"the amount of memory held is a runtime quantity that depends on the allocator's growth of append and on the positions of all copies at once",
}
WHY={}
checks=[]; na=[]
for p in props:
    i=p["id"]
    if i in CLAIM:
        checks.append(dict(property=i,quick_cmd="bash tools/check.sh "+i,thorough_cmd="bash tools/check.sh "+i,
          evidence_file="evidence/%s.json"%i,technique=TECH+": "+HOW[CLAIM[i]],level="other",
          level_note="Every obligation of the property is discharged on every abstract state, for all inputs and histories the client ranges over, or the check reports the obligation that is not; constructs it cannot interpret are reported as violations. Sound up to the models of the standard library and the assumptions listed in the evidence file; it is an over-approximation, so a report can in principle be a false alarm."+WHY.get(i,"")))
    else:
        na.append(dict(property=i,reason=NA.get(i,"no check built yet")))
m=dict(version=1,setup_cmd="bash tools/setup.sh",checks=checks,not_applicable=na,
  notes="The checker (checker/) loads /repo's current source, builds SSA form for it and the standard library, and interprets it abstractly; nothing of /repo is executed. There are no hooks in /repo.")
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1); open(os.path.join(here,"MANIFEST.json"),"a").write("\n")
print(len(checks),len(na))
