#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl (run by hand)."""
import json, os, sys
H=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
sys.path.insert(0,H)
from checks import CHECKS
props=[json.loads(l) for l in open(os.path.join(H,"properties.jsonl"))]
checks=[]
T={"C25":"runtime monitoring: libraries that record their own loading, in real Java virtual machines; files, descriptors and hooks observed around every call",
   "C19":"runtime monitoring: native methods run under sanitizers behind a simulated JVM, then the Java API in real JVMs with an offline checker of the recorded calls (bit-for-bit against the C++ library)",
   "C20":"runtime monitoring: every JNI call of the native methods audited by a simulated JVM with injected JNI and allocation failures, then real JVMs under -Xcheck:jni",
   "C18":"runtime monitoring: ThreadSanitizer over overlapping calls, results compared with sequential runs, overlap recorded",
   "C01":"runtime monitoring: ASan and UBSan (gcc, clang), valgrind memcheck and a two-run comparison with different contents of fresh memory",
   "C11":"runtime monitoring: model-based online checker over generated histories, under sanitizers","C12":"runtime monitoring: model-based online checker over generated histories with an allocation ledger, under sanitizers",
   "C13":"runtime monitoring: model-based online checker of aliasing and ownership over generated histories, under sanitizers",
   "C17":"runtime monitoring: history checker comparing each reused call with a fresh one bit for bit, under sanitizers",
   "C22":"runtime monitoring: refused requests monitored for unchanged snapshots, allocation ledger and the next call's result, under sanitizers",
   "C23":"runtime monitoring: allocation ledger over repeated histories with injected allocation failures, under sanitizers"}
for p in props:
    i=p["id"]
    if i not in CHECKS: continue
    c=CHECKS[i]
    builds=[v[0] for v in c["variants"]]
    checks.append({"property":i,"quick_cmd":"python3 run.py %s quick"%i,"thorough_cmd":"python3 run.py %s thorough"%i,"evidence_file":"evidence/%s.json"%i,
        "technique":c.get("technique") or T.get(i) or "runtime monitoring: independent reference oracle over generated executions of the real code, under sanitizers",
        "level":"exploration",
        "level_note":"Held on every execution observed (builds: %s); inputs are generated, not exhaustive. Cases: %s. Assumes: %s. Trusts the reference in harness/, the compilers and the sanitizers."%(", ".join(builds),c["rule"],"; ".join(c["assumptions"]) or "nothing further")})
na=[{"property":p["id"],"reason":"no check yet"} for p in props if p["id"] not in CHECKS]
m={"version":1,"setup_cmd":"python3 -c \"print('nothing to build: every check builds what it needs')\"","checks":checks,"not_applicable":na,
   "notes":"No hooks: everything is observed through the public API, the JNI function table, the allocator and the sanitizers. See DESIGN.md."}
json.dump(m,open(os.path.join(H,"MANIFEST.json"),"w"),indent=1)
print(len(checks),"checks,",len(na),"not claimed")
