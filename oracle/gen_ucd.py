#!/usr/bin/env python3
"""Generates oracle/ucd_tables.inc: when each code point was assigned (7 = "7 or earlier"), and the
simple lowercase mappings with the version they appeared in. Source: the UnicodeData.txt files of
the pinned base commit of /repo (read with git show, so edits of the working tree cannot reach the
oracle), cross-checked against Python's own copy of Unicode 15.0.  Run by hand; the output is
committed."""
import subprocess, unicodedata, sys, os
BASE=sys.argv[1] if len(sys.argv)>1 else "8ab7194"
def ucd(v):
    t=subprocess.check_output(["git","-C","/repo","show",f"{BASE}:source/bits{v}/UnicodeData.txt"],text=True)
    a=set(); low={}; cc=set(); co=set(); zs=set()
    first=None
    for l in t.splitlines():
        f=l.split(";")
        if len(f)<14: continue
        c=int(f[0],16)
        rng=[c]
        if f[1].endswith(", First>"): first=c; continue
        if f[1].endswith(", Last>"): rng=range(first,c+1)
        for x in rng:
            if f[2]=="Co": co.add(x)
            elif f[2]=="Cs": pass
            else: a.add(x)
            if f[2]=="Cc": cc.add(x)
            if f[2]=="Zs": zs.add(x)
        if f[13]: low[c]=int(f[13],16)
    return a,low,cc,co,zs
since={}; lows={}
prev=set(); plow={}
CO=set(range(0xE000,0xF900))|set(range(0xF0000,0xFFFFE))|set(range(0x100000,0x10FFFE))
for v in range(7,17):
    a,low,cc,co,zs=ucd(v)
    assert prev<=a and cc==set(range(0,32))|set(range(127,160)) and co==CO,v
    assert zs==set([0x20,0xa0,0x1680,0x202f,0x205f,0x3000])|set(range(0x2000,0x200b)),(v,zs)
    for c in a-prev: since[c]=v
    for c,l in low.items():
        if c in plow: assert plow[c]==l
        else: lows[c]=(l,v)
    assert set(plow)<=set(low)
    prev,plow=a,low
    if v==15:
        # Python knows Unicode 15.0; the data file may be 15.0 or 15.1 (CJK extension I differs)
        d=[c for c in range(0x110000) if (unicodedata.category(chr(c)) not in("Cn","Cs","Co"))!=(c in a)]
        print("15: differs from python in",len(d),hex(d[0]) if d else "",hex(d[-1]) if d else "", file=sys.stderr)
        for c in range(0x110000):
            if 0xd800<=c<0xe000: continue
            s=chr(c).lower()
            e=low.get(c,c)
            if c==0x130: continue
            assert len(s)==1 and ord(s)==e,(hex(c))
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"ucd_tables.inc"),"w") as f:
    f.write("// generated by gen_ucd.py; do not edit\nstatic const uint32_t kAssigned[][3] = { // first, last, since version\n")
    runs=[]; 
    for c in sorted(since):
        if runs and runs[-1][1]==c-1 and runs[-1][2]==since[c]: runs[-1][1]=c
        else: runs.append([c,c,since[c]])
    for r in runs: f.write("{0x%X,0x%X,%d},\n"%tuple(r))
    f.write("};\nstatic const uint32_t kLower[][3] = { // code point, simple lowercase, since version\n")
    for c in sorted(lows): f.write("{0x%X,0x%X,%d},\n"%(c,lows[c][0],lows[c][1]))
    f.write("};\n")
print(len(runs),len(lows))
