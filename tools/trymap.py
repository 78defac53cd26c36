import sys; sys.path.insert(0,'/verif/llv')
cpp,name=sys.argv[1:3]; sys.argv=['x']
import engine as EN, verify as V, loops as LP, re, lib
o0=lib.Verifier.try_map
def tm(self,L,H,backs,oid):
    last=[None]
    def tr(fr,ev,arg):
        if fr.f_code.co_name!='try_map': return None
        def loc(fr,ev,arg):
            if ev=='line': last[0]=(fr.f_lineno,{k:str(v)[:200] for k,v in fr.f_locals.items() if k in('off','v','a','sp','rest','span','s','lo','hi','d','e','ws')})
            return loc
        return loc
    for e in backs:
        o=e.mem[oid]; h=H.mem[oid]; print("BK",o.stride,h.stride,[ (x.k) for x in [h.top] if x], [(l.k,str(l.a)[:60]) for l in (o.top, o.top and o.top.below, o.top and o.top.below and o.top.below.below) if l], len(o.cells), len(h.cells))
    sys.settrace(tr)
    try: r=o0(self,L,H,backs,oid)
    finally: sys.settrace(None)
    print("try_map",oid,self.__class__,None if r is None else r['key'], last[0] if r is None else '', len(backs))
    return r
lib.Verifier.try_map=tm
V.compile_ir(cpp,"/tmp/h.ll"," ".join(re.findall(r"^//\s*@flags\s+(.*)$", open(cpp).read(), re.M)).split())
n,o=V.proofs_of(cpp)
r=V.run_proof(("/tmp/h.ll",name,o[name],cpp[:-4]+".spec.py",120)); print(r["error"])
