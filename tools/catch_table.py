import json,os
p='/verif/DESIGN.md';s=open(p).read()
rows=['| planted bug | needs | caught by |','|---|---|---|']
for d in sorted(os.listdir('/verif/seeded')):
    f=f'/verif/seeded/{d}/meta.json'
    if not os.path.exists(f): continue
    m=json.load(open(f)); rows.append(f"| {d} | {m['needs']} | {m['property']} |")
table='\n'.join(rows)
mark='<!-- planted -->'
if 'CATCHTABLE' in s:
    s=s.replace('CATCHTABLE',mark+'\n'+table+'\n'+mark)
else:
    a=s.index(mark);b=s.index(mark,a+1)
    s=s[:a]+mark+'\n'+table+'\n'+s[b:]
open(p,'w').write(s)
