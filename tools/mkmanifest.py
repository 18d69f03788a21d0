#!/usr/bin/env python3
"""Writes MANIFEST.json and contracts/properties.json (what each property's check verifies)."""
import json, os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
exec(open(os.path.join(V,"tools","plan.py")).read())
# every lemma that a listed function or lemma uses is proved in the same check (auto lemmas are used everywhere)
import glob, re
uses, auto, fuse = {}, set(), {}
for f in sorted(glob.glob(os.path.join(V,"contracts","*.spec"))):
    cur = None
    for l in open(f):
        m = re.match(r"(lemma|func) ([A-Za-z0-9_.]+)", l)
        if m: cur = m.groups(); base = cur[1]; (uses if cur[0]=="lemma" else fuse).setdefault(cur[1], set())
        elif cur and cur[0]=="func" and (m := re.match(r"\s+behavior (\w+)", l)): cur = ("func", base+"/"+m.group(1)); fuse.setdefault(cur[1], set())
        elif re.match(r"(logic|def|axiom)\b", l): cur = None
        elif cur and (m := re.match(r"\s+use (.*)", l)): (uses if cur[0]=="lemma" else fuse)[cur[1]] |= set(m.group(1).split("//")[0].split())
        elif cur and cur[0]=="lemma" and l.strip()=="auto": auto.add(cur[1])
for k in PLAN:
    c = PLAN[k]; todo = set(c["lemmas"])
    for f in c["functions"]: todo |= set().union(*(v for n, v in fuse.items() if n == f.replace("/base", "") or "/" not in f and n.startswith(f+"/")))
    if any(f.split("/")[0] not in UTIL+ERR+MAKE+SCH for f in c["functions"]): todo |= auto
    have = set()
    while todo:
        n = todo.pop()
        if n in have: continue
        have.add(n); todo |= uses[n] if n in uses else set()
        if n not in uses: raise SystemExit("no lemma "+n)
    c["lemmas"] = [n for n in uses if n in have]
    c["functions"] = list(dict.fromkeys(c["functions"]))
json.dump(PLAN,open(os.path.join(V,"contracts","properties.json"),"w"),indent=1,sort_keys=True)
checks=[]
for k in sorted(PLAN):
    c=PLAN[k]
    checks.append(dict(property=k,quick_cmd=f"python3 check.py {k}",thorough_cmd=f"VERIF_TIER=thorough python3 check.py {k}",
        technique=c["technique"],level=c["level"],level_note=c["note"]))
json.dump(dict(version=1,setup_cmd="bash setup.sh",checks=checks,not_applicable=[]),open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
