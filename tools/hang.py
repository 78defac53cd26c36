"""where does a proof spend its time: hang.py cpp proof seconds"""
import sys; sys.path.insert(0,'/verif/llv')
import verify, re, signal, traceback, lib
cpp,name,sec=sys.argv[1],sys.argv[2],int(sys.argv[3])
ll='/tmp/hang.ll'; t=open(cpp).read(); verify.compile_ir(cpp,ll," ".join(re.findall(r"^//\s*@flags\s+(.*)$",t,re.M)).split())
names,opts=verify.proofs_of(cpp)
def h(s,f):
    traceback.print_stack(f); 
    fr=f
    while fr:
        for k in ('inst','goal','g','cand'):
            if k in fr.f_locals: print(k,str(fr.f_locals[k])[:700])
        fr=fr.f_back
    sys.exit(1)
signal.signal(signal.SIGALRM,h); signal.alarm(sec)
verify.run_proof((ll,name,opts[name],cpp[:-4]+'.spec.py',600))
