import sys; sys.path.insert(0,'/verif/llv')
cpp,name=sys.argv[1:3]; sys.argv=['x']
import engine as EN, verify as V, re
o0=EN.Engine.rd_stride; pr=[0]
def rs(self,st,o,top,off,ty):
    try: return o0(self,st,o,top,off,ty)
    except EN.Unsupported as e:
        pr[0]+=1
        if pr[0]>2: raise
        print("OBJ",o.id,o.name,o.size,o.stride,"off",off if not isinstance(off,EN.Poly) else off.m,ty,e); ly=top
        n=0
        while ly is not None and n<8: print("  ",ly.k, [str(x)[:80] for x in ly.a] if isinstance(ly.a,tuple) else ly.a); ly=ly.below; n+=1
        raise
EN.Engine.rd_stride=rs
V.compile_ir(cpp,"/tmp/h.ll"," ".join(re.findall(r"^//\s*@flags\s+(.*)$", open(cpp).read(), re.M)).split())
n,o=V.proofs_of(cpp)
r=V.run_proof(("/tmp/h.ll",name,o[name],None,300)); print(r["error"])
