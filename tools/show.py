import sys; sys.path.insert(0, __import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))))
from sa.loader import Program
from sa.spec import *
from sa.terms import show
P=Program(); S=Spec(P,sys.argv[1]); n=sys.argv[2]
lits=sys.argv[3].split(',') if len(sys.argv)>3 and sys.argv[3] else []
fr=S.mod.names["r_"+n][1]; fs=S.mod.names["s_"+n][1]
args=fr.node.args.args
kinds=[parse_kind(ast.literal_eval(a.annotation)) for a in args]
d=dict(x.split('=') for x in lits)
def params(I):
    return [parse_lits(d[a.arg])[0] if a.arg in d else symbolic(I,a.arg,k) for a,(k,_) in zip(args,kinds)]
for f in (fr,fs):
    from sa import models,terms; models.FINITE=terms.FINITE=bool(S.opt("FINITE",n,False))
    I=Interp(P,keep=set(S.opt("KEEP",n,[])),expand=set(S.opt("EXPAND",n,[])))
    t=S.term(I,f,params(I))
    print(f.qual, "=>", show(t, 14)[:3000] if t is not None else getattr(I,'why',None)); print()
