"""Writes MANIFEST.json from properties.jsonl, the modules in mc/props and tools/data.py."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[json.loads(l) for l in open(V+'/properties.jsonl')]
exec(open(V+'/tools/data.py').read())
checks=[];na=[]
for p in P:
    i=p['id']
    if os.path.exists(V+'/mc/props/%s.py'%i.lower()):
        t,n=TECH[i]
        checks.append(dict(property=i,quick_cmd="/opt/venv/bin/python -B run.py "+i,thorough_cmd="/opt/venv/bin/python -B run.py %s --tier thorough"%i,technique=t,level="model_checking",level_note=n))
    else:
        na.append(dict(property=i,reason="check under construction"))
m=dict(version=1,setup_cmd="/opt/venv/bin/python -B -c \"import sys; sys.path.insert(0, '.'); from mc import env; env.load()\"",checks=checks,not_applicable=na,notes="One explorer (mc/engine.py); one module per property (mc/props). No hooks in /repo.")
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),len(na))
