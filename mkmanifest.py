import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
na={
}
J="Seeded random exploration of the page's real scripts and React over a simulated document, history, clock and network, with a user, lost, failed and reordered responses, judged against a reference server and renderer; not exhaustive. Trusts the document and event model of /verif/js."
note={
 "":"Seeded random exploration of complete simulated executions of the instrumented server on the current tree, judged by an independent reference model; not exhaustive. Trusts the simulator's file system, process and scheduler model, the VCS stand-ins and Go's regexp as matching reference.",
 "C23":"Seeded random exploration of contents, expressions, fragmentations and error positions against a line-splitting reference; not exhaustive.",
 "C32":"Seeded random exploration of pairs of index files, with write faults, against a merged-set reference; not exhaustive.",
 "C31":J,"C34":J,"C35":J,
}
import sys
skip=set(sys.argv[1:])
checks=[]
nas=[]
for p in props:
    i=p['id']
    if i in na: nas.append({"property":i,"reason":na[i]}); continue
    if i in skip: nas.append({"property":i,"reason":"check under construction"}); continue
    checks.append({"property":i,"quick_cmd":f"./check {i} quick","thorough_cmd":f"./check {i} thorough","technique":"deterministic simulation with fault injection (seeded search over schedules, faults and histories)","level":"exploration","level_note":note.get(i,note[""])})
m={"version":1,"setup_cmd":"./buildsim","hooks":{"guard":"none in /repo: the instrumentation is generated by /verif/instr from /repo's working tree at every check and compiled through 'go build -overlay'","enable":"./buildsim","source_commits":[]},"checks":checks,"not_applicable":nas,"notes":"./check C01 quick|thorough decides one property; ./check replay FILE runs a replay file again; ./check thorough-all runs everything deeply. DESIGN.md explains the rest."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
