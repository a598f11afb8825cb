#!/usr/bin/env python3
"""Writes codepages.inc from Python's cp1252 and cp1250 codecs (generated from Microsoft's tables)."""
import os
out="// generated by gen_codepages.py from the Python codecs cp1252 and cp1250 (Microsoft's published tables); 0 = undefined\n"
for cp in ("cp1252","cp1250"):
    l=[]
    for b in range(256):
        try: l.append(ord(bytes([b]).decode(cp)))
        except UnicodeDecodeError: l.append(0)
    out+=f"static const unsigned k{cp.upper()}[256] = {{ "+", ".join(hex(x) for x in l)+" };\n"
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'codepages.inc'),'w').write(out)
