#!/usr/bin/env python3
"""Development tool: rewrite the list of planted bugs in DESIGN.md."""
import json, os, textwrap
p='/verif/DESIGN.md'; s=open(p).read()
i=s.index('`seeded/` holds'); j=s.index('Missed at first, and')
by={}; n=0
for b in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{b}/meta.json')); by.setdefault(m['property'],[]).append(b); n+=1
t=f'''`seeded/` holds {n} changes, each of which compiles, passes the stable tests and
has a demonstration. `tools/trybugs.sh` runs the checks against them in a private
mount namespace. All of them are caught in the quick tier, each by the check of its own
property (most by others as well):

'''
for k in sorted(by):
    t+='\n'.join(textwrap.wrap(f'* {k}: '+', '.join(by[k]),88,subsequent_indent='  ',break_on_hyphens=False))+'\n'
open(p,'w').write(s[:i]+t+'\n'+s[j:])
