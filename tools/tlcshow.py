"""Condenses a TLC counterexample of KrillSync.tla."""
import re,sys
t=open(sys.argv[1]).read()
t=t[t.find("Error:"):]
last=""
for st in re.split(r"\nState \d+: ",t)[1:]:
    def g(v):
        m=re.search(r"/\\ %s = (.*?)(?=\n/\\ |\n\n|\Z)"%v,st,re.S)
        return re.sub(r"\s+"," ",m.group(1)) if m else ""
    act=st[1:].split(" ")[0]
    src=g("src"); 
    s="".join(re.findall(r'\bs \|-> "(\w)"',src)[:1])+"".join(re.findall(r'\bn \|-> (\d+)',src)[:1])
    ds=re.findall(r'"(D\w+)"',re.findall(r"ds \|-> (<<.*?>>)",src)[0] if "ds" in src else "")
    todo=last
    last=g("todo")
    m=re.findall(r'ch \|-> (\{.*?\})|k \|-> "(\w+)"',todo)
    op=(m[0][0] or (m[1][0] if len(m)>1 and m[1][0] else "")  or m[0][1]) if m else ""
    if act in ("Start","Init","Kill","Fail","Torn","Initial") or act!="RunStep": 
        print(act,"src",s,ds,"clock",g("clock"),"lnk",g("lnk"),"ntf",g("ntf")[:300])
        if act=="Start": print("   sst",g("sst")[:400])
    else: print("     ",op[:130],g("viol") if g("viol")!="{}" else "")
print(g("ntf"),g("viol"))
