#!/usr/bin/env python3
"""Rewrites the 'Budget' lines of DESIGN.md from checks.py."""
import re, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import checks
p=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','DESIGN.md')
cur=None; out=[]
for l in open(p):
    m=re.match(r'### (\S+) ',l)
    if m: cur=m.group(1)
    if l.startswith('* *Budget (cases)*') and cur in checks.CHECKS:
        q,t=checks.CHECKS[cur]['quick'],checks.CHECKS[cur]['thorough']
        l='* *Budget (cases)*: quick {:,} + {:,} with AddressSanitizer; thorough {:,} + {:,}.\n'.format(q['opt'],q.get('asan',0),t['opt'],t.get('asan',0))
    out.append(l)
open(p,'w').writelines(out)
