import json,glob,os
D=os.path.dirname(os.path.abspath(__file__))
rows=['| change | property | needs | caught by |','|---|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json'))
    rows.append('| %s | %s | %s | check %s |'%(os.path.basename(d),m['property'],m['needs'],m['property']))
a=open(D+'/head.md').read(); b=open(D+'/rest.md').read()
open('/verif/DESIGN.md','w').write(a.replace('@@REST@@',b.replace('@@SEEDS@@','\n'.join(rows))))
