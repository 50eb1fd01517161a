"""run every stream rule (and, with a second argument, the queue rules)"""
import sys, os; sys.path.insert(0, '/verif/nx'); sys.setrecursionlimit(20000)
from core import *
import rules_stream, rules_log, rules_group
P = Prog(os.environ.get('NX_OUT', '/verif/build/out')); rep = Report('S'); props = set(sys.argv[1].split(','))
rules_stream.run_topic(P, rep, props); rules_stream.run_manager(P, rep, props); rules_log.run_log(P, rep, props); rules_stream.run_reads(P, rep, props) if "S10" in props else None
if len(sys.argv) > 2: rules_group.run_group(P, rep, props)
print(rep.counts)
for v in rep.viol.values(): print(v['key'], '|', v['msg'][:200], '|', v['where'])
