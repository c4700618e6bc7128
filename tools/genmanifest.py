#!/usr/bin/env python3
# Writes /verif/MANIFEST.json: the checks are the Check registrations of mc/*.go.
import json, os, re, glob
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks={}
for f in glob.glob(os.path.join(here,'mc','*.go')):
    s=open(f).read()
    for m in re.finditer(r'check\(&Check\{ID:\s*"(P\d+)",\s*Level:\s*"(\w+)",\s*Rule:\s*"((?:[^"\\]|\\.)*)",(?:\s*Assum:\s*\[\]string\{(.*?)\},\n)?',s,re.S):
        a=re.findall(r'"((?:[^"\\]|\\.)*)"',m.group(4) or '')
        checks[m.group(1)]=(m.group(2),m.group(3),a)
tech={
 'exploration':'stateless model checking: exhaustive enumeration of a bounded input space on the real code against an independent reference model',
 'model_checking':'explicit-state model checking: all reachable states and transitions of a model, every one replayed on the real code, plus all bounded histories',
 'fault_enumeration':'stateless model checking with fault injection: every fault point of every explored history on the real code',
}
out=[]
for id in sorted(checks):
    lv,rule,a=checks[id]
    note='Bounded: '+rule+'. Every case runs on the code built from /repo; a violation has to recur in five re-runs.'
    if a: note+=' Assumes: '+'; '.join(a)+'.'
    out.append({'property':id,'quick_cmd':f'bash check.sh {id} quick','thorough_cmd':f'bash check.sh {id} thorough','evidence_file':f'evidence/{id}.json','technique':tech[lv],'level':lv,'level_note':note})
props=[json.loads(l)['id'] for l in open(os.path.join(here,'properties.jsonl'))]
assert sorted(checks)==props,(sorted(checks),props)
json.dump({'version':1,'setup_cmd':'bash setup.sh','checks':out,'not_applicable':[],'notes':'No hooks in /repo: the checks drive the exported API and the program. Go model checker in mc/, see DESIGN.md.'},open(os.path.join(here,'MANIFEST.json'),'w'),indent=1,ensure_ascii=False)
print(len(out))
