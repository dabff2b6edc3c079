#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: hand-written text below, bounds from the harness, findings and seeds from their files."""
import json,re,glob,os
R='/verif/'
props=[json.loads(l) for l in open(R+'properties.jsonl')]
src=''.join(open(f).read() for f in sorted(glob.glob(R+'harness/*.go')))
bounds={};assume={}
for m in re.finditer(r'checks\["(C\d+)"\] = &Check\{',src):
    seg=src[m.end():m.end()+6000]
    b=re.search(r'Bounds:\s*"((?:[^"\\]|\\.)*)"',seg); bounds[m[1]]=b[1].replace('\\"','"') if b else ''
    seg=seg[:seg.find('\n}')]
    a=re.search(r'Assume:\s*\[\]string\{(.*?)\}[,}]',seg,re.S); assume[m[1]]=re.findall(r'"((?:[^"\\]|\\.)*)"',a[1]) if a else []
known=json.load(open(R+'known_findings.json'))
fixed={}
for f in known['fixed']:
    m=re.match(r'fixed: property=(C\d+) (\S+) (.*)',f); fixed.setdefault(m[1],[]).append((m[2],m[3]))
find={}
for f in known['findings']: find.setdefault(f['property'],[]).append(f)
import sys; sys.path.insert(0,R+'tools'); import design_text as D
T={'head':D.HEAD,'props':D.P,'seeds':D.SEEDS,'caught':D.CAUGHT,'tail':D.TAIL}
seeds=[]
for d in sorted(glob.glob(R+'seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(d)); j=json.load(open(d)); seeds.append((i,j))
o=[T['head']]
o.append('## Properties\n')
for p in props:
    i=p['id']; t=T['props'].get(i,{})
    o.append(f"### {i} {p['title']}\n\n{p['statement']}\n")
    o.append(f"- **Explored**: {bounds.get(i,'')}.")
    o.append(f"- **Oracle**: {t.get('oracle','')}")
    o.append(f"- **Cost**: {t.get('cost','')}")
    o.append(f"- **Beyond the tests**: {t.get('why',p.get('why_tests_insufficient',''))}")
    if assume.get(i): o.append("- **Assumed**: "+'; '.join(assume[i])+".")
    if fixed.get(i): o.append("- **Defects found and repaired**: "+'; '.join(f"{w} ({h})" for h,w in fixed[i])+".")
    if find.get(i): o.append("- **Known findings (not repaired)**: "+'; '.join(f"`{f['key']}`: {f['what']}" for f in find[i])+".")
    o.append('')
o.append(T['seeds'])
o.append('| change | property | needs | caught by |\n|---|---|---|---|')
for i,j in seeds:
    o.append(f"| {i} | {j['property']} | {j['needs']} | {T['caught'].get(i,j['property'])} |")
o.append('')
o.append(T['tail'])
open(R+'DESIGN.md','w').write('\n'.join(o)+'\n')
print(len('\n'.join(o)),'bytes;', [p['id'] for p in props if p['id'] not in T['props']])
