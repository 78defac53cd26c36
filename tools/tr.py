import sys; sys.path.insert(0,'/verif/llv')
import engine, execu, verify as V, re
R=execu.__dict__
cls=[c for c in R.values() if isinstance(c,type) and hasattr(c,'step') and 'step' in c.__dict__][0]
o0=cls.step
def st_(self,st):
    try: return o0(self,st)
    except Exception as ex:
        if type(ex).__name__=="Unsupported":
            print("-----",ex)
            for f in st.frames: print("FRAME",f.fn.dname[:150],f.blk, f.idx if hasattr(f,'idx') else '')
        raise
cls.step=st_
cpp,name=sys.argv[1:3]
t=open(cpp).read()
V.compile_ir(cpp,"/tmp/h.ll"," ".join(re.findall(r"^//\s*@flags\s+(.*)$", t, re.M)).split())
n,o=V.proofs_of(cpp); oo=dict(o[name]); oo['jobs']='1'
V.run_proof(("/tmp/h.ll",name,oo,None,300))
