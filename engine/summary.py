"""Prints what the analysis derived for entry points (a reading aid)."""
import sys
from rules import *
D=int(__import__("os").environ.get("D","5"))
ctx=Ctx()
pat=sys.argv[1:]
facts=__import__("os").environ.get("FACTS")
for c in sorted(ctx.ents):
    for e in ctx.ents[c]:
        for v in ctx.variants(c,e):
            n=f"{c}/{e}.{v}"
            if not all(p in n for p in pat): continue
            w=ctx.view(c,e,v)
            print("##",n,"oks",len(w.oks))
            for ef,fs in w.effects():
                print("  EFF",ef["kind"],show(ef["item"],2),"[",show(ef["key"],D),"] =",show(ef.get("val",UNIT),D), "@",w.where(ef))
                if facts:
                    for f in sorted(fs,key=lambda t:(t.op=="or",t.id)): print("       |",show(f,D+1)[:600])
            for m in w.msgs():
                print("  MSG",m.kind,show(m.m,D+2))
                if facts and facts!="e":
                    for f in sorted(m.facts,key=lambda t:(t.op=="or",t.id)): print("       |",show(f,D+1)[:600])
            if not w.effects() and not w.msgs() and facts:
                for f,v2,_ in w.oks:
                    print("  OK",show(v2,D))
                    for f in sorted(f,key=lambda t:(t.op=="or",t.id)): print("       |",show(f,D+1)[:600])
