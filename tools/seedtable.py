#!/usr/bin/env python3
# writes the planted-changes table of DESIGN.md from seeded/*/meta.json (and tools/caught.txt)
import json,glob,os,re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)),".."))
rows=["| id | property | needs | breaks |","|----|----|----|----|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    m=json.load(open(f)); rows.append("| %s | %s | %s | %s |"%(f.split("/")[1],m["property"],m["needs"],m["what_it_breaks"]))
s=open("DESIGN.md").read()
i=s.index("<!--seeds-->") if "<!--seeds-->" in s else s.index("SEEDTABLE")
s=s[:i]+"<!--seeds-->\n"+"\n".join(rows)+"\n"
open("DESIGN.md","w").write(s)
