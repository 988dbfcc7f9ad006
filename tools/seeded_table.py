import json,os
rows=[]
for i in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{i}/meta.json')); rows.append((m['property'],i,m['what_it_breaks']))
first={'shared-constant-costs':'caught after histories of systems that differ in their length only','shared-limit-upper-zero':'caught after two systems with a limit of zero were added','keyword-value-ignored-if-zero':'caught after keyword values of 0 and False were added','power-ratio-first-period':'caught after a fixed storage with a ratio per period was added','old-name-of-capacity-zero':'caught after systems made of zeros were written in other words'}
out=['## Planted changes','','Every change below is in `seeded/` and is caught by the quick check of its property. The ones that were','missed first, and what was added for them, are marked.','','| property | change | what it breaks | |','|---|---|---|---|']
for p,i,w in sorted(rows): out.append(f'| {p} | {i} | {w} | {first.get(i,"")} |')
t=open('/verif/DESIGN.md').read()
if '## Planted changes' in t: t=t[:t.index('## Planted changes')].rstrip()+'\n'
t=t.rstrip()+'\n\n'+'\n'.join(out)+'\n'
open('/verif/DESIGN.md','w').write(t)
