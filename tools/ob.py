import sys; sys.path.insert(0,'/verif/llv')
import verify as V, z3
o0=V.solve_ob
def so(o,*a):
    r=o0(o,3)
    if r[0]!='proved':
        print("== HYPS of",o.name)
        for h in o.hyps: print("   ",str(z3.simplify(h) if len(sys.argv)>4 else h).replace("18446744073709551616","2^64").replace("\n"," ")[:600])
        print("GOAL",str(o.goal)[:1500]); sys.exit()
    return r
V.solve_ob=so
cpp,name=sys.argv[1:3]
t=open(cpp).read(); import re
V.compile_ir(cpp,"/tmp/h.ll"," ".join(re.findall(r"^//\s*@flags\s+(.*)$", t, re.M)).split())
n,o=V.proofs_of(cpp); oo=dict(o[name]); oo['jobs']='1'
V.run_proof(("/tmp/h.ll",name,oo,None,300))
