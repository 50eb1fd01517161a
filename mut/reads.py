"""S10 and what shares its monitors: python3 mut/reads.py"""
import sys, os; sys.path.insert(0, '/verif/nx'); sys.setrecursionlimit(20000)
from core import *
import rules_stream, rules_log
P = Prog(os.environ.get('NX_OUT', '/verif/build/out')); rep = Report('S')
rules_log.run_log(P, rep, {'S01','S02','S03','S04','S07','S09','S10'}); rules_stream.run_reads(P, rep, {'S10'})
print(rep.counts)
for v in rep.viol.values():
    print(v['key'], '|', v['msg'][:200], '|', v['where'])
