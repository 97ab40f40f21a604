#!/usr/bin/env python3
# Generates MANIFEST.json from properties.jsonl and the checks present under h/p.
import json, os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes={}
np=os.path.join(here,'tools','levels.json')
if os.path.exists(np): notes=json.load(open(np))
checks=[];na=[]
for l in open(os.path.join(here,'properties.jsonl')):
    p=json.loads(l); i=p['id']
    if os.path.exists(os.path.join(here,'h','p',i,'main.go')):
        n=notes.get(i,{})
        checks.append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough",
          "technique":n.get("technique","property-based testing with shrinking against an independent reference"+(", partly under Go's race detector" if os.path.exists(os.path.join(here,'h','p',i,'race')) or i=='A02' else "")),
          "level":"exploration",
          "level_note":n.get("note","Searches generated cases against an oracle; shows no violation among the cases generated, and proves nothing beyond them. Trusts the Go toolchain and the oracle code in h/p/"+i+".")})
    else:
        na.append({"property":i,"reason":"check not built yet"})
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na,
 "notes":"Each check builds a Go program (h/p/<id>) against the Go packages of /repo's working tree. No hooks are used in /repo."}
json.dump(m,open(os.path.join(here,'MANIFEST.json'),'w'),indent=1); open(os.path.join(here,'MANIFEST.json'),'a').write('\n')
