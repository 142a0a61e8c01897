import sys, time, multiprocessing as mp
from mir import Program
from engine import *
from entries import *
from dbgmon import Dbg
cfg = sys.argv[1]
p = Program('/verif/.work/%s.json' % cfg)
ES = all_entries(p)
def job(i):
    en = ES[i]
    d = Dbg()
    e = Engine(p, [d], {'max_head': 1500})
    e.MAX_PATHS = 100000
    t = time.time(); lim = ''
    try: e.analyse(lambda: en.state(e))
    except Limit as x: lim = str(x)
    except Exception as x:
        import traceback; lim = 'EXC ' + traceback.format_exc()[-600:]
    return (en.label, time.time()-t, e.stats['paths'], lim, dict(d.c), dict(d.tx), e.unknown)
if __name__ == '__main__':
    pat = sys.argv[2] if len(sys.argv) > 2 else ''
    js = [i for i in range(len(ES)) if pat in ES[i].label]
    with mp.Pool(8) as pool:
        for r in pool.imap_unordered(job, js, 1):
            print('## %s %.1fs paths=%d %s' % r[:4])
            for k, v in r[4].items():
                if not k.startswith(('return','unwind','cancelled')): print('   ev', v, k[:200])
            for k, v in r[5].items():
                if k[0] != 'ok?': print('   tx', v, str(k)[:200])
            if r[6]: print('   unk', str(r[6])[:300])
            sys.stdout.flush()
