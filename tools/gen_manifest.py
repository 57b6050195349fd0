#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from properties.jsonl and the harnesses present.
import json, os
V = '/verif'
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
SCHED = "stateless model checking of the real code: controlled scheduler enumerating all interleavings within a deviation bound"
SEQ = "exhaustive enumeration of all operation sequences of the real code up to a depth, against a reference model"
BFS = "breadth-first search over canonical states of the real data structure, each transition checked against a reference model"
INP = "exhaustive enumeration of a bounded input and environment-choice space on the real code"
FLT = "exhaustive enumeration of faults and environment answers injected into the real code"
T = {}
for i in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C13".split(): T[i] = (SCHED, "model_checking")
T['C11'] = (FLT + ", plus all interleavings within a deviation bound", "model_checking")
T['C12'] = (FLT, "fault_enumeration")
T['C14'] = (SCHED + " and all pool answers", "model_checking")
for i in "D01 D02 D03 D04 D05 D06 D09 D10 D11 D12".split(): T[i] = (SEQ + "; " + BFS, "model_checking")
for i in "D07 D08 A01 A02 X01 X02 X03 X05 X06 X07 X08 T01 T02 T03 F01 F02 V01".split(): T[i] = (INP, "exploration")
T['X04'] = (FLT, "fault_enumeration")
T['I01'] = T['I02'] = (SCHED, "model_checking")
T['I03'] = T['I04'] = (INP, "model_checking")
T['I05'] = (FLT + ", plus all interleavings within a deviation bound", "fault_enumeration")
T['M01'] = (SEQ.replace("against a reference model", "each repeated and measured"), "model_checking")
T['W01'] = (INP + " (directory trees)", "exploration")
NOTE = {}
try:
    NOTE = json.load(open(V + '/tools/notes.json'))
except FileNotFoundError:
    pass
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'{V}/harness/{i.lower()}/main.go') and i in T:
        tech, level = T[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./check {i} quick",
            "thorough_cmd": f"./check {i} thorough",
            "technique": tech,
            "level": level,
            "level_note": NOTE.get(i, "Exhaustive within the bounds its evidence file states; every explored execution runs /repo's own code, compiled through an overlay whose only changes are calls into the explorer at synchronisation, time and randomness operations."),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
