"""C24: the public types make illegal client programs fail to build (compile-fail witnesses with legal twins)."""
import json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from rules import rule, Rule
import witness

BORROW = {'', 'E0277', 'E0310', 'E0382', 'E0499', 'E0500', 'E0501', 'E0502', 'E0503', 'E0505', 'E0506', 'E0515', 'E0521', 'E0596', 'E0597', 'E0621', 'E0716'}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


@rule
class C24(Rule):
    pid = 'C24'
    only = ()
    cfgs = ('default', 'nodef')
    more_cfgs = ('default', 'nodef', 'stats')
    technique = 'compile-fail witnesses with compiling twins, type-checked and borrow-checked by rustc (nothing is run)'
    note = ('decided by the compiler on the listed client programs, which are generic in the cache parameters where the '
            'language allows it; classes of programs that are not listed are not covered')
    rule = ('every listed client program that would misuse the cache across threads, while something is borrowed from it, or '
            'beyond its life is rejected by the compiler for that reason, and its legal twin is accepted; no Send or Sync '
            'implementation is asserted by hand')

    @classmethod
    def conclude(cls, results, progs):
        out = []
        cov = {}
        repo = os.environ.get('VERIF_REPO', '/repo')
        work = os.environ.get('VERIF_WORK', os.path.join(HERE, '.work'))
        args = {'default': [], 'nodef': ['--no-default-features'], 'stats': ['--features', 'stats'], 'rel': [], 'shuttle': ['--features', 'shuttle']}
        for c, p in progs.items():
            d = tempfile.mkdtemp(prefix='wit.', dir=work)
            try:
                r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--lib', '--message-format=json', '--manifest-path', repo + '/Cargo.toml'] + args[c],
                                   env={**os.environ, 'CARGO_TARGET_DIR': d + '/t'}, capture_output=True, text=True)
                if r.returncode:
                    cov['inconclusive: cannot build'] = 1
                    continue
                lib, deps = None, []
                for l in r.stdout.splitlines():
                    m = json.loads(l)
                    if m.get('reason') != 'compiler-artifact':
                        continue
                    for f in m['filenames']:
                        if f.endswith(('.rmeta', '.so')) and os.path.dirname(f) not in deps:
                            deps.append(os.path.dirname(f))
                    if m['target']['name'].replace('-', '_') == 'quick_cache':
                        lib = [f for f in m['filenames'] if f.endswith('.rmeta')][0]

                def one(j):
                    i, body = j
                    f = '%s/w%d.rs' % (d, i)
                    with open(f, 'w') as o:
                        o.write(witness.PRE + body + '\n')
                    q = subprocess.run(['rustc', '+nightly', '--edition', '2021', '--crate-type', 'lib', '--crate-name', 'w%d' % i, '--emit=metadata', '-o', '%s/w%d.rmeta' % (d, i),
                                        '--error-format=json', '--extern', 'quick_cache=' + lib] + [x for y in deps for x in ('-L', 'dependency=' + y)] + [f], capture_output=True, text=True, cwd=d)
                    codes, msgs = set(), []
                    for l in q.stderr.splitlines():
                        try:
                            m = json.loads(l)
                        except ValueError:
                            continue
                        if m.get('level') == 'error' and not m['message'].startswith('aborting due'):
                            codes.add((m.get('code') or {}).get('code') or '')
                            msgs.append(m['message'])
                    return q.returncode, codes, msgs
                jobs = []
                for i, (n, a, b, g, codes) in enumerate(witness.W):
                    jobs += [(2 * i, b), (2 * i + 1, g)]
                with ThreadPoolExecutor(8) as ex:
                    rs = list(ex.map(one, jobs))
                for i, (n, a, b, g, codes) in enumerate(witness.W):
                    (r0, c0, m0), (r1, c1, m1) = rs[2 * i], rs[2 * i + 1]

                    def bad(code, msg, prog):
                        out.append({'code': code + ':' + n, 'entry': a, 'cfg': c, 'fn': a, 'at': where(p, a), 'n': 1,
                                    'trace': prog.splitlines(), 'msg': msg})
                    if r0 == 0:
                        bad('accepted', 'the illegal program `%s` compiles' % n, b)
                    elif c0 & set(codes):
                        cov['illegal programs rejected'] = cov.get('illegal programs rejected', 0) + 1
                    else:
                        cov['inconclusive: rejected for another reason'] = cov.get('inconclusive: rejected for another reason', 0) + 1
                        cov['inconclusive: %s' % n] = 1
                    if r1 == 0:
                        cov['legal programs accepted'] = cov.get('legal programs accepted', 0) + 1
                    elif c1 <= BORROW:
                        bad('rejected', 'the legal program beside `%s` is rejected: %s' % (n, m1[0] if m1 else ''), g)
                    else:
                        cov['inconclusive: legal program %s' % n] = 1
            finally:
                shutil.rmtree(d, ignore_errors=True)
            for im in p.impls if hasattr(p, 'impls') else ():
                pass
        cls.extra = cov
        results.append({'v': [], 'cov': cov, 'facts': {}, 'label': 'client programs', 'kind': 'witness', 'cfg': '+'.join(progs), 't': 0, 'lim': None,
                        'stats': {}, 'unknown': {}, 'fns': sorted({a for _, a, *_ in witness.W})})
        return out


def where(p, a):
    for f in p.local_fns():
        if f.path.split('<')[0].rstrip(':').startswith(a) or a in re.sub(r'<[^>]*>', '', f.path).replace('::::', '::'):
            for b in f.bbs:
                t = b['t']
                for x in b['s']:
                    if len(x) > 3 and isinstance(x[3], (list, tuple)):
                        return '%s:%s' % (x[3][0], x[3][1])
    return None
