#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design/*, properties.jsonl, levels, known-findings, the seeds
and the (quick) evidence of the last run on the unchanged tree."""
import json, os, glob, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,V+'/tools/design')
from props import D
L=json.load(open(V+'/tools/levels.json'))
P=[json.loads(l) for l in open(V+'/properties.jsonl')]
o=[open(V+'/tools/design/head.md').read().rstrip(),'','## Per property','']
stat=V+'/tools/design/counts.json'
counts=json.load(open(stat)) if os.path.exists(stat) else {}
for p in P:
    i=p['id']
    f=V+'/evidence/%s.json'%i
    if os.path.exists(f) and '--counts' in sys.argv:
        e=json.load(open(f)); c=e['coverage']
        if e.get('tier')=='quick' and not e['violations'] and c.get('exhaustive'):
            counts[i]=dict(states=c['states'],transitions=c['transitions'],traces=c['traces_validated_against_impl'],wall=round(e['wall_s']),sections=[(s['section'],s.get('bound',''),s['cases']) for s in c['sections']])
    a,b,t=D[i]
    o.append('### %s %s'%(i,p['title'])); o.append('')
    o.append('*Technique:* %s.'%L[i]['technique']); o.append('')
    o.append('*Specified and monitored:* '+a); o.append('')
    o.append('*What tests cannot reach:* '+b); o.append('')
    if t: o.append('*Trust and limits:* '+t); o.append('')
    if i in counts:
        c=counts[i]
        o.append('*Enumerated (quick tier, about %d s on 8 cores: %s states, %s calls, %s traces):*'%(c['wall'],format(c['states'],','),format(c['transitions'],','),format(c['traces'],','))); o.append('')
        for n,bd,k in c['sections']: o.append('- **%s** (%s cases): %s'%(n,format(k,','),bd))
        o.append('')
json.dump(counts,open(stat,'w'),indent=1,sort_keys=True)
fx=[l.strip() for l in open(V+'/known-findings.txt') if l.startswith('fixed:')]
rows=['| property | commit | what failed |','|---|---|---|']
for l in fx:
    w=l.split(' ',3); rows.append('| %s | %s | %s |'%(w[1].split('=')[1],w[2][:8],w[3]))
sd=['| planted bug | property | needs |','|---|---|---|']
for m in sorted(glob.glob(V+'/seeded/*/meta.json')):
    j=json.load(open(m)); sd.append('| %s | %s | %s |'%(os.path.basename(os.path.dirname(m)),j['property'],j['needs'].replace('|','/')))
t=open(V+'/tools/design/tail.md').read().replace('@FIXES@','\n\n'+'\n'.join(rows)).replace('@SEEDS@','\n\n'+'\n'.join(sd))
extra=V+'/tools/design/campaign.md'
if os.path.exists(extra): t+='\n'+open(extra).read()
open(V+'/DESIGN.md','w').write('\n'.join(o)+'\n'+t)
