"""debug: one obligation with literal arguments: tools/case.py C11 test nt=1,ni=2"""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.setrecursionlimit(20000)
import ast
from sa.loader import Program
from sa.spec import *
P = Program(); S = Spec(P, sys.argv[1]); n = sys.argv[2]
d = dict(x.split("=") for x in (sys.argv[3].split(",") if len(sys.argv) > 3 and sys.argv[3] else []))
fr = S.mod.names["r_" + n][1]; fs = S.mod.names["s_" + n][1]
args = fr.node.args.args
kinds = [parse_kind(ast.literal_eval(a.annotation)) for a in args]
lits = [parse_lits(d[a.arg])[0] if a.arg in d else None for a in args]
v, fn = S.one(fr, fs, args, kinds, lits, set(S.opt("KEEP", n, [])), set(S.opt("EXPAND", n, [])), set(S.opt("HEADS", n, [])))
print(v)
