#!/usr/bin/env python3
# Writes known_findings.json: findings that stay (identified by case key) and
# the list of repaired defects (commit hashes looked up by subject).
import json, subprocess, os
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from known_data import FINDINGS, FIXED
log=subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout.splitlines()
def h(subj):
    for l in log:
        c,s=l.split(' ',1)
        if s==subj: return c
    raise SystemExit('no commit: '+subj)
subs=[l.split(' ',1)[1] for l in log if l.split(' ',1)[1].startswith('fix:')]
for s in subs:
    if not any(f[1]==s for f in FIXED): print('unrecorded fix:',s)
json.dump({'findings':[{'property':p,'key':k,'what':w} for p,k,w in FINDINGS],
 'fixed':['fixed: property=%s %s %s'%(p,h(s),w) for p,s,w in FIXED]},open(R+'/known_findings.json','w'),indent=1)
