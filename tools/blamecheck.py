#!/usr/bin/env python3
"""For each planted bug: how many removed lines (or, for pure insertions, neighbouring lines) come from the base commit."""
import subprocess, re, os, sys
base='5f9d86e'
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in sorted(os.listdir(V+'/seeded')):
    p=f'{V}/seeded/{d}/patch.diff'; f=None; old=new=0; ln=0
    for l in open(p):
        if l.startswith('--- '): f=l[6:].strip()
        elif l.startswith('+++ '): pass
        elif l.startswith('@@'):
            ln=int(re.match(r'@@ -(\d+)',l).group(1))
        elif f and l.startswith('-'):
            b=subprocess.run(['git','-C','/repo','blame','-l','-L',f'{ln},{ln}','HEAD','--',f],capture_output=True,text=True).stdout
            r=subprocess.run(['git','-C','/repo','merge-base','--is-ancestor',b.split()[0].lstrip('^'),base]).returncode
            if r==0: old+=1
            else: new+=1
            ln+=1
        elif f and l.startswith(' '): ln+=1
    print(d, 'original-removed',old,'mine-removed',new, '' if old and not new else ('<-- pure insertion' if not old and not new else '<-- touches mine'))
