import json,subprocess
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
T={
'C01':'recording stream + reference-model monitor over generated grammars and texts, replay of put-back streams',
'C02':'reference-model monitor over generated terminals and texts',
'C03':'reference-model monitor over whitespace-heavy texts; all code points tried on the whitespace predicate',
'C04':'reference-model monitor plus metamorphic reordering of alternatives',
'C05':'reference-model monitor over nested sequences, options, repetitions',
'C06':'reference-model monitor over generated blocks',
'C07':'reference-model monitor plus model-free alignment of leaves with the text',
'C08':'reference-model monitor plus repeated and reordered executions compared',
'C09':'step-counting stream with operation budgets from the model, growth monitor on large texts, watchdog',
'C10':'position monitor against lines and columns of the text',
'C11':'operation histories checked against a cursor model',
'C12':'Go race detector and porcupine linearizability checking of concurrent histories',
'C13':'Go race detector over shared grammars, results compared with sequential runs',
'C14':'round-trip monitor: print, reload, compare trees and text',
'C15':'structure monitor: generated layouts of known structures, loading paths compared',
'C16':'monitor over injected grammar faults and add/validate histories',
'C17':'crash, budget and memory monitor over mutated grammars and texts',
'C18':'derivation checker over raw trees',
'C19':'mark monitor plus comparison with unannotated grammars',
'C20':'tree-law monitor over token merging',
'C21':'tree-law monitor over node removal',
'C22':'tree-law monitor over redundant-node removal',
'C23':'tiling monitor against a reference search',
'C24':'outcome monitor over levels, undefined names and empty texts',
'C25':'the built command-line tool observed from outside, compared with the library',
'C26':'snapshot and poisoning monitor for aliasing and hidden state',
'C28':'listing monitor: serialized text, reference map and look-ups against the known structure after every step of a history',
'C29':'metamorphic monitor: a grammar and its rewritten form run side by side',
'C30':'differential monitor over entry points, stream types and levels',
'C31':'round-trip monitor: documents written from values, values read back from the trees',
'C27':'accessor monitor against plain traversals and an own renderer',
}
import os
built=set()
for f in os.listdir('/verif/harness'):
    if f.endswith('.go'):
        import re
        built|=set(re.findall(r'ID:\s*"(C\d\d)"',open('/verif/harness/'+f).read()))
hook=subprocess.check_output(['git','-C','/repo','log','--format=%H','--grep=^verif:'],text=True).split()
m={"version":1,
 "setup_cmd":"bash /verif/setup.sh",
 "hooks":{"guard":"verif","enable":"go build -tags verif (run.sh does it)","source_commits":hook},
 "checks":[],"not_applicable":[],
 "notes":"run.sh CHECK [tier] builds the harness in a temporary directory against /repo's working tree and runs it; run.sh -replay FILE repeats the failing case."}
for p in props:
    i=p['id']
    if i in built:
        m["checks"].append({"property":i,"quick_cmd":f"bash run.sh {i} quick","thorough_cmd":f"bash run.sh {i} thorough",
          "technique":T[i],"level":"exploration",
          "level_note":"Held on the executions of the run, whose number, distinct inputs and observed events are in the evidence; says nothing about inputs not generated. Trusts the harness's own model or law and the Go toolchain."})
    else:
        m["not_applicable"].append({"property":i,"reason":"check not built yet"})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
print(len(m['checks']),'checks')
