import collections
from engine import *
from terms import *
class Dbg(Monitor):
    def __init__(s): s.c = collections.Counter(); s.tx=collections.Counter()
    def begin_attempt(s, e): s.c.clear(); s.tx.clear()
    def on_event(s, e, st, ev):
        if ev.k in ('slab_misuse','ub','dup_key','hash_mismatch') or ev.k=='rehash' and not ev.d[-1]: s.c[repr(ev)[:200]]+=1
    def on_exit(s, e, st, kind, v): s.c[kind+' '+(show(v)[:60] if v is not None else '')]+=1
    def on_tx(s, e, st, key, tx):
        for it in tx.items:
            for q in it.prob: s.tx[('item',tx.final,it.ic,it.fc)+q[:1]+(st.top().fn.path.split('::')[-1] if st.frames else '-',)]+=1
        for q in tx.head_prob: s.tx[('head',tx.final)+q]+=1
        for q in tx.count_prob: s.tx[('count',tx.final,q[0],show(q[1])[:150])]+=1
        for q in tx.prob: s.tx[('tx',q)]+=1
        s.tx[('ok?',tx.final)]+=1
