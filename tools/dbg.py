import sys; sys.path.insert(0,'/verif/llv')
import verify, re, os, z3, lib, loops
orig=lib.Verifier.prove_q
n=[0]
def pq(self, st, g, ms=4000):
    r=orig(self,st,g,ms)
    if not r and not isinstance(g,bool) and 'in_id' in str(g) and 'ForAll' in str(g) and 'hi.' in str(g):
        n[0]+=1
        if n[0]==int(os.environ.get('NQ','1')):
            for c in st.pc: print('H',str(c)[:600])
            print('G',g)
            s=z3.Solver(); s.set('timeout',20000); s.add(*st.pc); s.add(z3.Not(g)); r2=s.check(); print(r2); 
            if r2==z3.sat: print(s.model())
            sys.exit()
    return r
lib.Verifier.prove_q=pq
ll='/tmp/h.ll'; cpp=sys.argv[1]
t=open(cpp).read(); verify.compile_ir(cpp,ll," ".join(re.findall(r"^//\s*@flags\s+(.*)$",t,re.M)).split())
names,opts=verify.proofs_of(cpp)
verify.run_proof((ll,sys.argv[2],opts[sys.argv[2]],cpp[:-4]+'.spec.py',600))
