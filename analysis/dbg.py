import sys, time, collections
from mir import Program
from engine import *
from entries import *
cfg, adt, name = sys.argv[1:4]
p = Program('/verif/.work/%s.json' % cfg)
from dbgmon import Dbg
d = Dbg()
Engine.MAX_PATHS=int(__import__('os').environ.get('MP','30000'))
e = Engine(p, [d], {'dbgabs':1,'unwind': 'nounw' not in sys.argv,'max_head':int(__import__('os').environ.get('MH','4000'))})
t=time.time()
for f in public_methods(p, adt, [name]):
    print(f.path)
    try: e.analyse(lambda: entry_state(e, f))
    except Limit as x:
        print('LIMIT',x)
        for k,v in sorted(e.headcount.items(),key=lambda kv:-kv[1])[:8]: print(v,[(a.split('::')[-1],b) for a,b in k])
    print(e.stats, time.time()-t)
for k,v in d.c.most_common(60): print(v,k)
for k,v in d.tx.most_common(60): print(v,k)
print(e.unknown)
print('loops', {k:(v['shard'],v['num']) for k,v in e.loopinfo.items()})
print(len(e.covered))

if 'diff' in sys.argv:
    from collections import defaultdict
    g=defaultdict(list)
    for k in e.seen: g[k[0]].append(k[1])
    for hk,l in sorted(g.items(),key=lambda kv:-len(kv[1])):
        if hk[-1][0].endswith(sys.argv[-1]):
            print(hk,len(l))
            cnt=collections.Counter()
            for x in l:
                for q in x[0]: cnt[('P',q)]+=1
                for q in x[1]: cnt[('F',q)]+=1
                cnt[('A',x[2])]+=1
            for q,n in sorted(cnt.items(), key=lambda kv:kv[1]):
                if n<len(l): print(n, str(q)[:400])
            break
