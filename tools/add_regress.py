#!/usr/bin/env python3
"""add_regress.py NAME REPLAY.json...: append the choices of replay files to regress.tsv."""
import sys,json,os
P="/verif/regress.tsv"
have=set(l.split("\t")[2].strip() for l in open(P)) if os.path.exists(P) else set()
with open(P,"a") as f:
    for r in sys.argv[2:]:
        j=json.load(open(r))
        if "choices" not in j: continue
        c=",".join(map(str,j["choices"]))
        if c and c not in have and len(c)<6000:
            have.add(c); f.write(f"{j['property']}\t{sys.argv[1]}\t{c}\n")
