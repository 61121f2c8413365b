#!/usr/bin/env python3
"""MANIFEST.json: every property with a workload (wl/<id>.cpp) is claimed."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
TECH="deterministic simulation: seeded fault/schedule search over the real library under a simulated %s"
SEAMS={"C01":"disk and allocator","C02":"disk, corrupted media and checked memory","C03":"disk and allocator","C04":"corrupted media and checked memory",
"C05":"allocator with an n-d array reference model","C06":"disk and allocator","C07":"clock, locale, time zone, disk and thread scheduler","C08":"allocator with an independent NURBS reference model",
"C09":"allocator with an independent NURBS reference model","C10":"thread scheduler with happens-before check","C11":"thread scheduler with happens-before check","C12":"allocator placement, memory contents, clock, locale and entropy",
"C13":"allocator","C14":"allocator with a multiset reference model","C15":"allocator and thread scheduler with an exhaustive-scan model","C16":"allocator and supply order","C17":"user callback and allocator",
"C18":"entropy device, allocator and thread scheduler","C19":"clocks, time zone and thread scheduler"}
NOTE="Seeded exploration, not exhaustive: evidence states seeds, faults and interleavings actually run. Trusts the simulator (sim/rt.cpp), the reference models in wl/, clang's access instrumentation and libc++. Executions are sequentially consistent; weak-memory effects are covered only through the happens-before race check."
NA={
"N01":"pure function of (shape, parameter): no schedule, clock, I/O or fault can change the answer, so simulation adds nothing over input sampling; its environmental side (threads, memory, OOM) is claimed in C10-C13",
"N02":"pure numeric completeness question about two fixed curves; no environment, schedule or history is involved (thread, memory and OOM behaviour of the same code is claimed in C10-C13)",
"N03":"pure numeric completeness question about a fixed curve and surface; no environment, schedule or history is involved (see C10-C13 for the environmental side)",
"N04":"pure numeric completeness question about two fixed surfaces; no environment, schedule or history is involved (see C10-C13 for the environmental side)",
"N05":"pure function of the point set; no concurrency, time, I/O or fault for a simulator to control (OOM and memory worlds: C12, C13)",
"N06":"pure function of two point sets; nothing for a simulator to schedule or fail",
"N07":"pure function of a handful of points; nothing for a simulator to schedule or fail",
"N08":"pure algebraic identity on coefficients; nothing for a simulator to schedule or fail",
"N09":"pure arithmetic identity; nothing for a simulator to schedule or fail",
"N10":"pure geometric definitions; nothing for a simulator to schedule or fail",
"N11":"pure numeric convergence question for a fixed curve/surface and query point (leak and OOM side: C13)",
"N12":"pure numeric accuracy question; the driver's behaviour under misbehaving integrands is claimed in C17",
}
checks=[];na=[]
for p in props:
    i=p["id"]
    if os.path.exists(f"{V}/wl/{i}.cpp"):
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","evidence_file":f"evidence/{i}.json",
          "technique":TECH%SEAMS[i],"level":"exploration","level_note":NOTE})
    else: na.append({"property":i,"reason":NA.get(i,"no workload built for it yet")})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo are needed: the seams are the ones the code already has (operator new, stdio/iostreams, chrono clocks, random_device, user callbacks, thread interleaving of plain memory accesses), taken over at compile/link time of the simulator binary. Known findings and repaired defects: known_findings.jsonl. Design: DESIGN.md."}
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1); open(V+"/MANIFEST.json","a").write("\n")
print(len(checks),"claimed",len(na),"not applicable")
