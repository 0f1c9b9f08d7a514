#!/bin/bash
# mine.sh <seed>: lines of a seed's patch that fix commits added (such a change would not count)
cd /repo; python3 - "$1" <<'P'
import sys,re,subprocess
d=open(f"/verif/seeded/{sys.argv[1]}/patch.diff").read().split("\n"); f=None; bad=0; old=0
for l in d:
    if l.startswith("--- a/"):
        f=l[6:]; bl=subprocess.run(["git","blame","-s","-l","e6aebee..HEAD","--",f],capture_output=True,text=True).stdout.split("\n")
    m=re.match(r"@@ -(\d+)",l)
    if m: n=int(m.group(1))-1; continue
    if f and not l.startswith(("+++","---","diff","index")):
        if l[:1] in " -":
            n+=1
            if l[:1]=="-":
                if not bl[n-1].startswith("^"): bad+=1; print("MINE",sys.argv[1],f,n,l[:100])
                else: old+=1
print(sys.argv[1],"original lines removed:",old,"mine:",bad)
P
