#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property on /repo's current tree."""
import sys, os, json, time, subprocess, multiprocessing as mp, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'analysis'))
WORK = os.environ.get('VERIF_WORK', os.path.join(HERE, '.work'))
REPO = os.environ.get('VERIF_REPO', '/repo')
CFGS = {
    'default': ([], {}),
    'rel': ([], {'REL': '1'}),
    'stats': (['--features', 'stats'], {}),
    'nodef': (['--no-default-features'], {}),
    'shuttle': (['--features', 'shuttle'], {}),
}


def dump(cfgs):
    d = os.path.join(WORK, 'run.%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    subprocess.run(['bash', os.path.join(HERE, 'tools', 'driver.sh')], check=True, stdout=subprocess.DEVNULL)
    ps = []
    for c in cfgs:
        args, env = CFGS[c]
        out = os.path.join(d, c + '.json')
        ps.append((c, out, subprocess.Popen(['bash', os.path.join(HERE, 'tools', 'dump.sh'), out] + args, env={**os.environ, **env},
                                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    res = {}
    for c, out, p in ps:
        log, _ = p.communicate()
        if p.returncode != 0 or not os.path.exists(out):
            sys.stderr.write(log.decode(errors='replace')[-4000:])
            print('cannot build the %s configuration of %s' % (c, REPO))
            sys.exit(2)
        res[c] = out
    return d, res


PROGS = {}
DEV = False
BUDGET = {'quick': 240, 'thorough': 420}    # seconds per entry
ENTS = {}
RULE = None
TIER = 'quick'


def job(j):
    cfg, i, pids = j
    from engine import Engine, Limit
    import rules
    p = PROGS[cfg]
    en = ENTS[cfg][i]
    rs = []
    for pid in pids:
        r = rules.RULES[pid]()
        r.entry, r.cfg = en, cfg
        r.stop = len(pids) == 1 and not DEV
        rs.append(r)
    e = Engine(p, rs, {'max_head': 4000 if TIER == 'thorough' else 2000, **en.opts})
    e.MAX_PATHS = 600000 if TIER == 'thorough' else 200000
    t = time.time()
    e.deadline = t + (BUDGET.get(TIER) if not DEV else int(os.environ.get('VERIF_DEVBUDGET', '60')))
    lim = None
    for r in rs:
        r.deadline0 = e.deadline

    def mk():
        st = en.state(e)
        for r in rs:
            r.setup(e, st)
        return st
    try:
        e.analyse(mk)
    except Limit as x:
        lim = 'limit: %s' % x
    except Exception:
        lim = 'error: ' + traceback.format_exc()[-1500:]
    out = {}
    for r in rs:
        res = r.result()
        res.update(label=en.label, kind=en.kind, cfg=cfg, t=time.time() - t, lim=lim, stats=dict(e.stats), unknown=dict(e.unknown),
                   fns=sorted({f if isinstance(f, str) else f[0] for f in e.covered}))
        out[r.pid] = res
    return out


COST = {'insert_with_lifecycle': 9, 'insert': 9, 'replace': 9, 'replace_with_lifecycle': 9}


def run(pids):
    """-> {pid: (results, violations, configurations)}"""
    from mir import Program
    import rules
    from entries import all_entries
    cf = {}
    for pid in pids:
        R = rules.RULES[pid]
        c = R.cfgs
        if TIER == 'thorough':
            c = tuple(dict.fromkeys(c + getattr(R, 'more_cfgs', ('default', 'rel', 'nodef', 'stats', 'shuttle'))))
        cf[pid] = c
    cfgs = tuple(dict.fromkeys(c for pid in pids for c in cf[pid]))
    d, outs = dump(cfgs)
    try:
        jobs = []
        for c in cfgs:
            PROGS[c] = Program(outs[c])
            ENTS[c] = all_entries(PROGS[c])
            for i, en in enumerate(ENTS[c]):
                w = [pid for pid in pids if c in cf[pid] and rules.RULES[pid]().wants(en)]
                if w:
                    jobs.append((c, i, w))
        jobs.sort(key=lambda j: -COST.get(ENTS[j[0]][j[1]].kind, 1))
        res = {pid: [] for pid in pids}
        if jobs:
            with mp.Pool(min(8, os.cpu_count() or 1)) as pool:
                for r in pool.imap_unordered(job, jobs, 1):
                    for pid, x in r.items():
                        res[pid].append(x)
        out = {}
        for pid in pids:
            rs = sorted(res[pid], key=lambda r: (r['cfg'], r['label']))
            viol = [v for r in rs for v in r['v']]
            extra = rules.RULES[pid].conclude(rs, {c: PROGS[c] for c in cf[pid]})
            out[pid] = (rs, known(pid, viol + extra), cf[pid])
        return out
    finally:
        subprocess.run(['rm', '-rf', d])


def main():
    global RULE, TIER, DEV
    import rules
    pid = sys.argv[1]
    TIER = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        TIER = sys.argv[sys.argv.index('--tier') + 1]
    t0 = time.time()
    if pid in ('ALL',) or ',' in pid:
        # development: every rule over one exploration, no evidence written
        pids = sorted(rules.RULES) if pid == 'ALL' else [x for x in pid.split(',') if x]
        DEV = True
        out = run(pids)
        for p, (res, viol, cfgs) in out.items():
            lims = sorted({r['lim'][:300] for r in res if r['lim']})
            print('%s %s %s%s' % (p, 'VIOLATION' if viol else 'ok', '' if not lims else 'inconclusive=%d ' % len(lims), dict(sum_cov(res)) if '-v' in sys.argv else ''))
            for v in viol[:6]:
                print('    %s (%s) [%s] at %s: %s' % (v['entry'], v['cfg'], v['code'], v['at'], v['msg'][:200]))
            for l in lims[:3]:
                print('    ' + l)
        print('%.1fs' % (time.time() - t0))
        return
    RULE = rules.RULES[pid]
    res, viol, cfgs = run([pid])[pid]
    report(pid, res, viol, cfgs, time.time() - t0)


def sum_cov(res):
    c = {}
    for r in res:
        for k, n in r['cov'].items():
            c[k] = c.get(k, 0) + n
    return c


def known(pid, viol):
    """drop the listed known findings, announcing them"""
    f = os.path.join(HERE, 'known_findings.txt')
    out = []
    ks = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                ks.append(l.split(' ', 2)[2])
    seen = set()
    for v in viol:
        tag = '%s %s' % (v['entry'], v['code'])
        m = [k for k in ks if k.startswith(tag)]
        if m:
            seen.add(m[0])
        else:
            out.append(v)
    for k in sorted(seen):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    return out


def report(pid, res, viol, cfgs, wall):
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    cov = {}
    fns = set()
    for r in res:
        fns |= set(r['fns'])
        for k, n in r['cov'].items():
            cov[k] = cov.get(k, 0) + n
    incon = ['%s %s: %s' % (r['cfg'], r['label'], r['lim']) for r in res if r['lim']]
    doc = {
        'property': pid, 'tier': TIER, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': RULE.level,
        'wall_s': round(wall, 2),
        'coverage': {
            'explanation': 'static analysis of the compiler intermediate representation of /repo; rule: ' + RULE.rule,
            'rule': RULE.rule,
            'configurations': list(cfgs),
            'entries': len(res),
            'functions': len(fns),
            'paths': sum(r['stats'].get('paths', 0) for r in res),
            'abstract_exits': sum(r['stats'].get('exits', 0) for r in res),
            'loop_states': sum(r['stats'].get('heads', 0) for r in res),
            'obligations': cov,
            'entry_points': sorted({r['label'] for r in res}),
            'functions_analysed': sorted(fns)[:200],
            'unmodelled_callees': sorted({k for r in res for k in r['unknown']}),
            'inconclusive': incon,
        },
        'violations': [{k: v[k] for k in ('entry', 'cfg', 'code', 'msg', 'fn', 'at')} for v in viol],
    }
    with open(os.path.join(ev, pid + '.json'), 'w') as f:
        json.dump(doc, f, indent=1)
    print('%s: %d entries, %d functions, %d paths, obligations %s, %.1fs' % (pid, len(res), len(fns), doc['coverage']['paths'], cov, wall))
    for x in incon:
        print('  inconclusive: ' + x[:600])
    if viol:
        rp = os.path.join(WORK, 'replay')
        os.makedirs(rp, exist_ok=True)
        f = os.path.join(rp, pid + '.txt')
        with open(f, 'w') as o:
            for v in viol:
                o.write('%s  [%s]\n  entry %s (%s)\n  at %s in %s\n  %s\n  path:\n' % (pid, v['code'], v['entry'], v['cfg'], v['at'], v['fn'], v['msg']))
                for l in v['trace']:
                    o.write('    ' + l + '\n')
                o.write('\n')
        for v in viol[:10]:
            print('  %s [%s] at %s in %s: %s' % (v['entry'], v['code'], v['at'], v['fn'], v['msg']))
        print('VIOLATION property=%s replay=%s' % (pid, f))
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    main()
