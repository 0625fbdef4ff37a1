"""Entry point of every check:  python3 analysis/run.py <PROPERTY> [--tier quick|thorough]

Extracts the compiler's type-checked MIR of /repo's current working tree, runs the obligations registered for
the property on it, prints VIOLATION / KNOWN-FINDING lines, and writes evidence/<PROPERTY>.json."""
import hashlib
import json
import os
import resource
import subprocess
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('PNC_REPO', '/repo')
BUILD = os.path.join(ROOT, '.build')
sys.path.insert(0, HERE)


def sh(cmd, cwd, env=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def tree_hash():
    h = hashlib.sha256()
    files = []
    for base in (os.path.join(REPO, 'src'), os.path.join(ROOT, 'driver', 'src')):
        for d, _, fs in os.walk(base):
            files += [os.path.join(d, f) for f in fs]
    files += [os.path.join(REPO, f) for f in ('Cargo.toml', 'Cargo.lock')]
    for f in sorted(files):
        if os.path.exists(f):
            h.update(f.encode() + b'\0')
            h.update(open(f, 'rb').read() + b'\0')
    return h.hexdigest()[:20]


def build_driver():
    drv = os.path.join(ROOT, 'driver')
    rc, out = sh(['cargo', '+nightly', 'build', '--offline', '--quiet'], drv,
                 {'CARGO_TARGET_DIR': os.path.join(BUILD, 'driver')})
    if rc:
        sys.stderr.write(out)
        raise SystemExit(3)
    return os.path.join(BUILD, 'driver', 'debug', 'pnc-driver')


def dump():
    """directory with the MIR of the current tree"""
    h = tree_hash()
    out = os.path.join(BUILD, 'dump-' + h)
    if os.path.exists(os.path.join(out, 'done')):
        return out
    drv = build_driver()
    os.makedirs(out, exist_ok=True)
    rc, s = sh(['rustc', '+nightly', '--print', 'sysroot'], REPO)
    sysroot = s.strip().splitlines()[-1]
    env = {'LD_LIBRARY_PATH': sysroot + '/lib', 'RUSTFLAGS': '-C overflow-checks=off', 'PNC_OUT': out,
           'RUSTC_WORKSPACE_WRAPPER': drv, 'CARGO_TARGET_DIR': os.path.join(BUILD, 'target-' + h)}
    rc, s = sh(['cargo', '+nightly', 'check', '--offline', '--locked', '--lib', '--bins'], REPO, env)
    ok = rc == 0 and all(os.path.exists(os.path.join(out, f)) for f in ('panacea-lib.json', 'panacea-bin.json'))
    subprocess.run(['rm', '-rf', os.path.join(BUILD, 'target-' + h)])
    if not ok:
        sys.stderr.write(s)
        sys.stderr.write('the tree could not be analysed: it does not compile\n')
        raise SystemExit(3)
    open(os.path.join(out, 'done'), 'w').write('')
    old = sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD) if x.startswith('dump-')), key=os.path.getmtime)
    for x in old[:-16]:
        subprocess.run(['rm', '-rf', x])
    return out


def known():
    out = {}
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                f = l[9:].split(' ', 2)
                prop = f[0].split('=', 1)[1]
                key = f[1].split('=', 1)[1]
                out[(prop, key)] = f[2] if len(f) > 2 else ''
    return out


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--dump')
    a = ap.parse_args()
    t0 = time.time()
    d = a.dump or dump()
    import check
    import props
    props.load()
    if a.prop not in props.OBL:
        sys.stderr.write('unknown property %s\n' % a.prop)
        raise SystemExit(3)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    C = check.Ctx(d, tier=a.tier, seed=seed)
    box = [0]

    def late():
        # a slow analysis answers with what it has decided so far
        C.results.append(check.Res(check.UNK, 'time limit', 'the remaining obligations were not reached', 'time', '', ''))
        report(C, a, box[0], t0, seed, props, check)
    tm = threading.Timer(LIMIT, late)
    tm.daemon = True
    tm.start()
    box[0] = check.run_property(C, a.prop, a.tier)
    tm.cancel()
    report(C, a, box[0], t0, seed, props, check)


LIMIT = 720
_once = threading.Lock()


def report(C, a, n_obl, t0, seed, props, check):
    if not _once.acquire(blocking=False):
        return
    C.results = list(C.results)
    viol = [r for r in C.results if r.status == check.BAD]
    und = [r for r in C.results if r.status == check.UNK]
    held = [r for r in C.results if r.status == check.OK]
    kf = known()
    fresh = []
    for r in viol:
        k = (a.prop, r.key())
        if k in kf:
            print('KNOWN-FINDING: property=%s %s (%s)' % (a.prop, kf[k], r.key()))
        else:
            fresh.append(r)
    ev = os.path.join(ROOT, 'evidence')
    os.makedirs(ev, exist_ok=True)
    rep = os.path.join(ev, '%s.violations.txt' % a.prop)
    if os.path.exists(rep):
        os.remove(rep)
    if fresh:
        with open(rep, 'w') as f:
            for r in fresh:
                f.write('%s\n  at %s (%s)\n  %s\n  key %s\n\n' % (r.name, r.fn, r.span, r.detail, r.key()))
    if a.v:
        for r in C.results:
            print(' [%s] %s | %s | %s %s' % (r.status, r.name, r.leaf, r.fn, r.detail if r.status != check.OK or '-vv' in sys.argv else ''))
    st = C.stats()
    st.update({'explanation': props.EXPL.get(a.prop, '') or props.GENERIC,
               'rule': 'an obligation instance is one output location / site whose value-flow summary is compared with the '
                       'prescribed one; held = identical normal forms (or rule satisfied), violated = the summaries differ '
                       'and the difference is confirmed under random interpretation of the free symbols (or the structural '
                       'rule is broken at the named construct), undecided = neither',
               'obligations_run': n_obl, 'instances': len(C.results), 'held': len(held), 'violated': len(viol),
               'undecided': len(und),
               'undecided_list': ['%s: %s' % (r.key(), r.detail[:300]) for r in und][:40],
               'samples': [{'obligation': r.name, 'location': r.leaf, 'function': r.fn, 'status': r.status} for r in C.results][:60]})
    json.dump({'property': a.prop, 'tier': a.tier, 'seed': seed, 'level': 'other', 'coverage': st,
               'assumptions': props.ASSUME, 'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)},
              open(os.path.join(ev, a.prop + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d instances: %d held, %d violated (%d known), %d undecided; %d functions analysed; %.1f s'
          % (a.prop, n_obl, len(C.results), len(held), len(viol), len(viol) - len(fresh), len(und), len(C.functions), time.time() - t0))
    for r in und:
        print('  undecided: %s: %s' % (r.key(), r.detail[:200].replace('\n', ' ')))
    seen = set()
    for r in fresh:
        if r.key() in seen:
            continue
        seen.add(r.key())
        print('  %s at %s (%s) %s' % (r.name, r.fn, r.span, r.leaf))
        print('VIOLATION property=%s replay=%s' % (a.prop, rep))
    sys.stdout.flush()
    os._exit(1 if fresh else 0)


if __name__ == '__main__':
    threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(200000)
    resource.setrlimit(resource.RLIMIT_DATA, (16 << 30, resource.RLIM_INFINITY))     # an analysis that grows beyond is undecided, not ended
    rcbox = [3]

    def go():
        try:
            main()
        except SystemExit as e:
            rcbox[0] = e.code or 0
        except BaseException:
            traceback.print_exc()
            rcbox[0] = 3
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.exit(rcbox[0])
