#!/usr/bin/env python3
"""Writes known_findings.json from the fix commits in /repo."""
import json, subprocess, re
MAP="""82aee4f S15
8cc5c64 F23
802e05e S16
b81e9f5 P13
693cdfc P08
9ec67db P14
ed3ff7e P03
edafd57 P03
52eb97b P03
dd8d69f P03
0dc6d9a P02
bde2e55 P10
3daf818 P11
9ae1bc1 F20
26c6542 F21
6f497d4 F19
eb1cd8f F19
812a132 F22
ecb392a F22
ff64028 F22
8f72491 F23
fbbc8e7 F23
05c1275 F23
3231bc5 R24
46b74b4 R25
5c6f886 R26
662eb48 E31
b57f416 N29
2c1937e N28
912b6c0 S15
0f33bdf S16
1f764af S16
a6c1405 P10
542f45d S17
4fcbaae S16
8e779e4 P02
8994ca6 I27
026246c I27
426b012 P07
984d91e P14
0546858 P01
3c1403e P14
c2e3038 S15
39482e6 S17
9c418c2 F19
3005768 P02
73a5f08 P06
d53d33e F19"""
M=dict(l.split()[:2] for l in MAP.split("\n"))
log=subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True)
F=[]
for l in log.splitlines():
    h,s=l.split(" ",1)
    if s.startswith("fix:"):
        p=M.pop(h[:7], None)
        if p is None: print("unmapped",l); continue
        w=s[4:].strip()
        F.append({"id":f"{p}-{h}","property":p,"status":"fixed","commit":h,"what":f"fixed: property={p} {h} {w}"})
print("left",M)
json.dump({"Findings":F},open("/verif/known_findings.json","w"),indent=1)
open("/verif/known_findings.json","a").write("\n")
