#!/bin/bash
# every rule of one area, and L01.  usage: all.sh s|q|p|t|k   (NX_OUT, NX_REPO set by run.py)
cd /verif
case $1 in
s) python3 mut/rs.py S01,S02,S03,S04,S05,S06,S07,S08,S09,S10,S11,W01 1;;
q) python3 nx/rules_queue.py Q01,Q02,Q03,Q04,Q05,W01,Q08; python3 nx/rules_qstore.py Q06,Q07;;
p) python3 nx/rules_pubsub.py P01,P02,P03,P04;;
t) python3 nx/rules_tcp.py T01,T02,T03,T04;;
k) python3 nx/rules_kv.py K01,K02;;
esac
python3 nx/rules_locks.py
