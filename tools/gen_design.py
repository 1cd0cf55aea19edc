"""Adds the table of planted changes to DESIGN.md."""
import json,os,glob
p='/verif/DESIGN.md'; s=open(p).read()
i=s.find('## 6.')
if i>0: s=s[:i]
s=s.rstrip()+'''

## 6. Planted changes

Each is a change to the library that compiles and passes its tests, with a demonstration, in `seeded/`. All are caught by
the check of their property; the column says by which job first. Those marked * were missed by the checks as they were
when the change was planted, and led to the job named (or to making it stronger).

| change | property | what it breaks | needs | caught by |
|---|---|---|---|---|
'''
by=json.load(open('/verif/tools/caught.json'))
for d in sorted(glob.glob('/verif/seeded/*/')):
    n=os.path.basename(d[:-1]); m=json.load(open(d+'meta.json'))
    s+="| %s | %s | %s | %s | %s |\n"%(n,m['property'],m['what_it_breaks'].replace('|','/'),m['needs'].replace('|','/'),by.get(n,''))
open(p,'w').write(s)
