# Regenerates the catch table at the end of DESIGN.md from the planted bugs.
import json,glob,os,sys
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed=set(sys.argv[1:])
p=root+'/DESIGN.md'; s=open(p).read(); mark='## Planted bugs and the checks that catch them\n'
s=s.split(mark)[0].rstrip('\n')+'\n\n'+mark
rows=[(json.load(open(m))['property'],m.split('/')[-2],json.load(open(m))) for m in glob.glob(root+'/seeded/*/meta.json')+glob.glob(root+'/regress/*/meta.json')]
s+='\n%d planted bugs under `seeded/` and (those that only change lines of repairs) `regress/`; each is run against the quick check of its property.\n\n| property | bug | what it breaks | caught |\n|---|---|---|---|\n'%len(rows)
for pr,b,m in sorted(rows):
    s+='| %s | %s | %s | %s |\n'%(pr,b,m['what_it_breaks'].replace('|','/').replace('\n',' '),'no' if b in missed else 'yes')
open(p,'w').write(s)
