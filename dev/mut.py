#!/usr/bin/env python3
"""mut.py PROP[,PROP] FILE : FILE has python list M of (name, file, old, new)"""
import sys, subprocess, os
ns={}
exec(open(sys.argv[2]).read(), ns)
only=set(sys.argv[3:])
props=sys.argv[1].split(',')
def git(*a): subprocess.run(["git","-C","/repo"]+list(a),check=True,stdout=subprocess.DEVNULL)
for m in ns['M']:
    name,rest=m[0],m[1:]
    if only and name not in only: continue
    git("checkout","--",".")
    ok=True
    for i in range(0,len(rest),3):
        f,o,n=rest[i:i+3]
        p="/repo/src/"+f
        s=open(p).read()
        if s.count(o)<1: print("!!",name,"pattern not found in",f); ok=False; break
        open(p,"w").write(s.replace(o,n,1))
    if ok:
        for pr in props:
            r=subprocess.run(["timeout","900","python3","/verif/check.py",pr],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
            lines=[l for l in r.stdout.splitlines() if l.strip()]
            print(f"== {name} {pr} rc={r.returncode}: "+" | ".join(l.strip()[:170] for l in lines[:4]),flush=True)
    git("checkout","--",".")
