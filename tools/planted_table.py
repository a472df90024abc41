import json,os,glob
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/')):
    m=json.load(open(d+'meta.json')); rows.append((m['property'],os.path.basename(d[:-1]),m['needs'],m['what_it_breaks']))
rows.sort()
t='## Planted changes and which checks catch them\n\nEach lies in `seeded/<id>` and was written from the property text and the code alone; every one listed here builds, passes the\nstable tests, and is caught by the quick check of its property (seed 1).\n\n| change | caught by | needs | what it breaks |\n|---|---|---|---|\n'
t+=''.join('| %s | %s | %s | %s |\n'%(i,p,n,b) for p,i,n,b in rows)
t+='''
Beyond these, several hundred one-line mutations (operators, constants, dropped statements; some drawn at random, most chosen by
hand in the code behind each property) were run against the quick checks. Those that survived were looked at one by one: a survivor
was either shown to be equivalent (unreachable, or below what the output can show) or the check was strengthened until it was caught.
'''
p='/verif/DESIGN.md'; s=open(p).read()
i=s.find('## Planted changes')
if i>=0:
    j=s.index('\n## ',i+5)+1; s=s[:i]+t+'\n'+s[j:]
else:
    j=s.index('## False alarms met'); s=s[:j]+t+'\n'+s[j:]
open(p,'w').write(s)
