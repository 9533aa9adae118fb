import json,subprocess
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={}
NOTE="Samples seeded simulated sessions of real replicas; a clean batch is evidence, not proof. Trusts the reference model in sim/src/exec.rs, unique replica ids, and the stated run budget."
extra={
"C03":" A failure that is not C03's own is attributed to it only if the same trace without redeliveries is clean.",
"C09":" A failure elsewhere is attributed to it only if the same trace with forks instead of snapshot loads is clean.",
"C10":" A failure elsewhere is attributed to it only if the same trace with snapshot loads instead of forks is clean.",
"C12":" A failure elsewhere is attributed to it only if the same trace with edits passed in memory is clean.",
"C13":" Damaged bytes that are still well formed may be accepted: cola's messages carry no checksum, so only panics, hangs, memory exhaustion and accepted truncations are violations.",
"C16":" The other build is the pinned copy in baseline/.",
"C19":" Undefined behaviour is what Miri (Stacked Borrows, no leaks or data races) and AddressSanitizer report on the executions they run; the sessions Miri interprets are short.",
"C20":" Time is counted in executed basic blocks, bytes copied and bytes allocated, relative to the pinned copy in baseline/ with generous factors and to the session's own beginning; wall-clock time is not measured.",
"C21":" Sizes are compared with the pinned copy in baseline/ with generous factors; only the number of runs made by typing is judged by itself.",
"C18":" A failure elsewhere is attributed to it only if the same trace without the invalid and empty calls is clean.",
}
tech={"C11":"deterministic simulation with disk-fault injection (seeded torn, lost, flipped and foreign snapshot bytes)",
"C13":"deterministic simulation with message corruption (seeded)",
"C19":"deterministic simulation with fault injection: seeded sessions executed under Miri and AddressSanitizer",
"C20":"deterministic simulation with fault injection: seeded sessions, basic blocks, copies and allocations counted against the pinned build and the session's size",
"C21":"deterministic simulation with fault injection: seeded sessions, memory and message sizes measured against the pinned build, runs counted",
"C16":"deterministic simulation of mixed-build sessions (seeded schedules and faults)"}
checks=[]
for p in props:
    i=p['id']
    if i in NA: continue
    checks.append({"property":i,"quick_cmd":f"./check {i}","thorough_cmd":f"./check {i} --thorough",
      "technique":tech.get(i,"deterministic simulation with fault injection: seeded schedules, reference-model oracle"),
      "level":"exploration","level_note":NOTE+extra.get(i,"")})
m={"version":1,"setup_cmd":"./setup","checks":checks,
"not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
"notes":"No hooks in /repo: cola takes every nondeterministic input through its API. Each check builds the simulator from /repo's working tree (about 25 s; C19 about 60 s), then searches for 50 s (quick; C19 100 s) or 700 s (--thorough, or VERIF_TIER=thorough); ./replay FILE reruns a recorded violation; ./selftest shows that seeds and replays repeat exactly."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
