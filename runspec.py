import sys
from sa.loader import Program
from sa.spec import Spec
sys.setrecursionlimit(20000)
P = Program()
pid = sys.argv[1]
S = Spec(P, pid)
for n in S.names():
    if len(sys.argv) > 2 and n not in sys.argv[2:]:
        continue
    r = S.run(n)
    print(f"{r.verdict:12} {n:30} {r.secs:6.2f}s leaves={r.leaves} {r.why[:1500]}")
