#!/usr/bin/env python3
"""mkseed.py ID PROPERTY PATCH DEMO_RS NEEDS BREAKS [--ffi] [--serde]: lay out /verif/seeded/ID."""
import sys, os, json, shutil
a=[x for x in sys.argv[1:] if not x.startswith("--")]
id,prop,patch,demo,needs,breaks=a
d=f"/verif/seeded/{id}"; os.makedirs(d,exist_ok=True)
shutil.copy(patch,f"{d}/patch.diff")
if os.path.abspath(demo)!=f"{d}/demo.rs": shutil.copy(demo,f"{d}/demo.rs")
t=open("/verif/tools/demo_template.sh").read()
feat=', features = ["serde"]' if "--serde" in sys.argv else ""
deps=""
if "--ffi" in sys.argv: deps='cavalier_contours_ffi = { path = "$repo/cavalier_contours_ffi" }'
if "--serde" in sys.argv: deps='serde_json = "1"'
t=t.replace("@FEATURES@",feat).replace("@DEPS@",deps)
open(f"{d}/demo.sh","w").write(t); os.chmod(f"{d}/demo.sh",0o755)
json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(f"{d}/meta.json","w"),indent=1)
