import json
T={'C':"deterministic simulation: the OpenMP build runs under a simulated runtime that serialises the team and lets a seeded scheduler decide every interleaving (random, PCT, round-robin, conflict-directed); oracle: the same operations by a team of one",
'H':"deterministic simulation: seeded histories of operations, reconfigurations, copies and faults on a pool of objects; oracle: executable model of the configuration plus the same operation on a fresh object in its own process",
'F':"deterministic simulation with fault injection: seeded histories in which the caller's functions fail at the call the simulator chooses; oracle: returned status and the same operation on a fresh object in its own process",
'M':"deterministic simulation with fault injection under the address sanitizer with a counting allocator: seeded histories with faults in constructors, setters, copies and operations; oracle: no invalid access, no abnormal end, no growth of live blocks",
'X':"deterministic simulation with fault injection on storage: materials are written to and read from a simulated disk that truncates, tears, loses or corrupts blocks; oracle: the material that was written"}
PROPS=[json.loads(l) for l in open('/verif/properties.jsonl')]
CLAIM='C01 C02 C03 F01 F02 F03 H01 H02 H03 H04 M01 X01'.split()
PURE="pure function of its input: no schedule, time, I/O, fault or history in it for a simulator to vary; generating inputs for it would be property-based testing, not simulation"
NA={}
m=dict(version=1,setup_cmd='python3 sim/build.py',checks=[],not_applicable=[],
 notes='No hooks in /repo: the seams are the OpenMP runtime ABI, the compiler instrumentation and the functions, files and allocator the caller supplies. The commits in /repo are fixes of defects the simulation found (known-findings.txt).')
for p in PROPS:
    i=p['id']
    if i in CLAIM: m['checks'].append(dict(property=i,quick_cmd=f'python3 sim/run.py {i} quick',thorough_cmd=f'python3 sim/run.py {i} thorough',evidence_file=f'evidence/{i}.json',technique=T[i[0]],level='exploration',level_note='seeded search over executions of the real code; a clean batch is evidence within the bounds of DESIGN.md, not a proof'))
    else: m['not_applicable'].append(dict(property=i,reason=NA.get(i,PURE)))
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
