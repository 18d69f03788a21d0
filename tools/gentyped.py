#!/usr/bin/env python3
"""writes contracts/60_typed.spec (typed variants, C15) and contracts/61_jo.spec (JO methods, C20)."""
import os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conv={"String":"fmtt(value)","Int":"itoa(value)","Int32":"itoa(value)","Int64":"itoa(value)",
      "Uint":"itoa(value)","Uint32":"itoa(value)","Uint64":"itoa(value)","Float":"fmtflt(value)","Bool":'ite(value, "true", "false")'}
o=["// ---- typed variants: the untyped function on the text of the value (written by tools/gentyped.py) ----\n"]
def add(name,params,base,guard=None):
    args=", ".join(params)
    o.append(f"func {name}({args}) (r, err)")
    o.append("  pure")
    t=conv[name[len(base):]]
    ba=", ".join(t if p=="value" else p for p in params)
    g=""
    if guard:
        cond,code=guard
        o.append(f"  ensures rejected: {cond} ==> code(err) == {code} && r == json")
        g=f"!({cond}) ==> "
    o.append(f"  ensures same: {g}r == fn({base}, 0, {ba}) && err == fn({base}, 1, {ba})")
    o.append(f"  ensures unchanged: err != nil ==> r == json")
    o.append(f"  ensures owned: err == nil ==> fresh(r)")
    o.append("")
for t in ["String","Int","Float","Bool"]: add("Set"+t,["json","value","path"],"Set")
for t in ["String","Int","Float","Bool"]: add("Store"+t,["json","key","value","path"],"Store")
T=["String","Int","Int32","Int64","Uint","Uint32","Uint64","Float","Bool"]
for t in T: add("AddKeyValue"+t,["json","key","value","path"],"AddKeyValue",("len(key) == 0",19))
for t in T: add("Add"+t,["json","value","path"],"Add")
for t in T: add("Insert"+t,["json","index","value","path"],"Insert",("index < 0",7))
o.append('''func GetInt(json, path) (r, err)
  pure
  ensures missing: fn(GetString, 1, json, path) != nil ==> err == fn(GetString, 1, json, path)
  ensures bad: fn(GetString, 1, json, path) == nil && !atoiok(fn(GetString, 0, json, path)) ==> code(err) == 12
  ensures value: fn(GetString, 1, json, path) == nil && atoiok(fn(GetString, 0, json, path)) ==> err == nil && r == atoi(fn(GetString, 0, json, path))

func GetFloat(json, path) (r, err)
  pure
  ensures missing: fn(GetString, 1, json, path) != nil ==> err == fn(GetString, 1, json, path)
  ensures bad: fn(GetString, 1, json, path) == nil && !pfltok(fn(GetString, 0, json, path)) ==> code(err) == 13
  ensures value: fn(GetString, 1, json, path) == nil && pfltok(fn(GetString, 0, json, path)) ==> err == nil && r == pflt(fn(GetString, 0, json, path))

func GetBool(json, path) (r, err)
  pure
  ensures missing: fn(GetString, 1, json, path) != nil ==> err == fn(GetString, 1, json, path)
  ensures bad: fn(GetString, 1, json, path) == nil && fn(GetString, 0, json, path) != "true" && fn(GetString, 0, json, path) != "false" ==> code(err) == 14
  ensures yes: fn(GetString, 1, json, path) == nil && fn(GetString, 0, json, path) == "true" ==> err == nil && r
  ensures no: fn(GetString, 1, json, path) == nil && fn(GetString, 0, json, path) == "false" ==> err == nil && !r
''')
open(f"{V}/contracts/60_typed.spec","w").write("\n".join(o))

j=["// ---- jin_object*.go: JO methods are the interpreter functions on the document (written by tools/gentyped.py) ----\n",
"func NewJSON() (j)\n  ensures isnew(j) && j.body == \"{}\" && !isnil(j.body)\n",
"func New(buffer) (j)\n  ensures isnew(j) && j.body == buffer && (isnil(j.body) <==> isnil(buffer))\n",
"func JO.JSON(j) (r)\n  requires j != nil\n  ensures r == j.body && (isnil(r) <==> isnil(j.body))\n",
"func JO.String(j) (r)\n  requires j != nil\n  ensures r == j.body\n"]
def rd(name,params,n,pre=""):
    res=", ".join(f"r{i}" for i in range(n))
    j.append(f"func JO.{name}(j{''.join(', '+p for p in params)}) ({res})")
    j.append("  requires j != nil")
    a="".join(", "+p for p in ["j.body"]+params)
    for i in range(n):
        j.append(f"  ensures r{i} == fn({name}, {i}{a})")
    j.append("")
for g in ["Get","GetString","GetStringArray","GetType","GetBool","GetBoolArray","GetFloat","GetFloatArray","GetInt","GetIntArray","GetKeys","GetValues","IsObject","IsArray","IsValue","IsEmpty"]:
    rd(g,["path"],2)
rd("GetAll",["keys","path"],2)
rd("GetKeysValues",["path"],3)
def wr(name,params,same=None):
    j.append(f"func JO.{name}(j{''.join(', '+p for p in params)}) (err)")
    j.append("  requires j != nil")
    j.append("  modifies j.body")
    if name=="SetKey": j.append("  requires keyed(j.body, newKey, path)")
    a="".join(", "+p for p in ["old(j.body)"]+params)
    if same:  # the interpreter function has the same contract (60_typed.spec)
        a=a.replace("value",conv[name[5:]]); name="Store"
    j.append(f"  ensures err == fn({name}, 1{a}) && j.body == fn({name}, 0{a})")
    j.append(f"  ensures err != nil ==> j.body == old(j.body)")
    j.append("")
for b,p in [("Set",["value","path"]),("Add",["value","path"]),("AddKeyValue",["key","value","path"]),("Insert",["index","value","path"]),("SetKey",["newKey","path"]),("Delete",["path"]),("Store",["key","value","path"])]:
    wr(b,p)
import re
have=set()
for f in os.listdir("/repo"):
    if f.startswith("jin_object") and f.endswith(".go"):
        have|=set(re.findall(r"func \(j \*JO\) (\w+)\(",open("/repo/"+f).read()))
for t in ["String","Int","Float","Bool"]:
    wr("Set"+t,["value","path"]); wr("Store"+t,["key","value","path"],same=t!="String"); wr("AddKeyValue"+t,["key","value","path"]); wr("Add"+t,["value","path"]); wr("Insert"+t,["index","value","path"])
# keep only methods that exist
out=[];skip=False
for blk in "\n".join(j).split("\n\n"):
    m=re.search(r"func JO\.(\w+)\(",blk)
    if m and m.group(1) not in have: continue
    out.append(blk)
open(f"{V}/contracts/61_jo.spec","w").write("\n\n".join(out)+"\n")
print(have)
