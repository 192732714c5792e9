#!/usr/bin/env python3
"""plant.py DEFS.py [ID...]: write /verif/seeded/<id>/ from plant definitions (dict PLANTS).

Each definition: property, needs, breaks, edits [(file, old, new)], demo (rust source).
plant.py --confirm ID...: confirm, in a scratch copy of /repo, that the planted change is valid:
patch touches only original lines, builds, passes the stable tests, demo passes without and fails with it.
"""
import json, os, subprocess, sys, shutil, tempfile, runpy
SEED = '/verif/seeded'; BASE = '79d7efe'
def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout
def write(defs, only):
    for pid, d in defs.items():
        if only and pid not in only: continue
        dst = f'{SEED}/{pid}'; os.makedirs(dst, exist_ok=True)
        diff = ''
        by = {}
        for f, old, new in d['edits']: by.setdefault(f, []).append((old, new))
        for f, es in by.items():
            src = open(f'/repo/src/{f}').read(); out = src
            for old, new in es:
                assert out.count(old) == 1, (pid, f, out.count(old), old)
                out = out.replace(old, new)
            t = tempfile.mkdtemp()
            os.makedirs(f'{t}/a/src'); os.makedirs(f'{t}/b/src')
            open(f'{t}/a/src/{f}', 'w').write(src); open(f'{t}/b/src/{f}', 'w').write(out)
            _, o = sh(f'git diff --no-index --no-color --no-prefix a/src/{f} b/src/{f}', cwd=t)
            o = '\n'.join(l for l in o.split('\n') if not l.startswith('index '))
            diff += o
            shutil.rmtree(t)
        open(f'{dst}/patch.diff', 'w').write(diff)
        open(f'{dst}/demo.rs', 'w').write(d['demo'].lstrip('\n'))
        shutil.copy('/tmp/plants/demo.sh' if os.path.exists('/tmp/plants/demo.sh') else f'{SEED}/../tools/demo.sh', f'{dst}/demo.sh')
        os.chmod(f'{dst}/demo.sh', 0o755)
        json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(f'{dst}/meta.json', 'w'), indent=1)
        print('wrote', pid)
def blame_ok(diff):
    # every removed line must be a line of the original repository
    f = None; ln = 0; bad = []; n = 0
    cache = {}
    for l in diff.split('\n'):
        if l.startswith('--- a/'): f = l[6:]; continue
        if l.startswith('+++ '): continue
        if l.startswith('@@'): ln = int(l.split()[1].split(',')[0][1:]); continue
        if f is None: continue
        if l.startswith('-'):
            n += 1
            if f not in cache:
                _, o = sh(f'git blame -s -l HEAD -- {f}', cwd='/repo'); cache[f] = o.split('\n')
            c = cache[f][ln-1].split()[0].lstrip('^')
            rc, _ = sh(f'git merge-base --is-ancestor {c} {BASE}', cwd='/repo')
            if rc != 0: bad.append((f, ln))
            ln += 1
        elif l.startswith('+') or l.startswith('\\'): pass
        else: ln += 1
    return n, bad
def confirm(ids):
    wt = '/tmp/wt'
    base = json.load(open('/opt/vp/BASELINE.json'))
    for pid in ids:
        d = f'{SEED}/{pid}'
        n, bad = blame_ok(open(f'{d}/patch.diff').read())
        msgs = []
        if n == 0: msgs.append('no original line changed')
        if bad: msgs.append(f'changes my lines {bad}')
        rc, o = sh(f'git -C /repo apply {d}/patch.diff')
        if rc: print(pid, 'DOES NOT APPLY', o); continue
        try:
            rc, o = sh('bash /opt/vp/build.sh')
            if rc: msgs.append('BUILD FAILS ' + o[-1500:])
            else:
                rc, o = sh('bash /opt/vp/test.sh /tmp/plant-test.json')
                if rc: msgs.append('TESTS FAIL ' + '\n'.join(l for l in o.split('\n') if 'FAILED' in l or 'panicked' in l)[:600])
                rc, o = sh(f'bash {d}/demo.sh', cwd='/repo')
                if rc == 0: msgs.append('demo passes with patch')
                elif rc == 2: msgs.append('demo broken ' + o[-1500:])
                else: last = o.strip().split('\n')[-1]
        finally:
            sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh')
        rc, o = sh(f'bash {d}/demo.sh', cwd='/repo')
        if rc: msgs.append(f'demo fails on clean tree rc={rc} ' + o[-1500:])
        print(pid, 'OK' if not msgs else 'BAD: ' + '; '.join(msgs), flush=True)
def detect(ids, tier='quick', props=None):
    for pid in ids:
        d = f'{SEED}/{pid}'; prop = json.load(open(f'{d}/meta.json'))['property']
        rc, o = sh(f'git -C /repo apply {d}/patch.diff')
        if rc: print(pid, 'DOES NOT APPLY'); continue
        res = []
        try:
            for p in (props or [prop]):
                rc, o = sh(f'./run.sh {p} {tier}', cwd='/verif', timeout=1200)
                v = [l for l in o.split('\n') if l.startswith(f'VIOLATION property={p}')]
                res.append((p, 'CAUGHT' if rc == 1 and v else f'missed(rc={rc})'))
        finally:
            sh('git -C /repo checkout -- .')
        print(pid, *[f'{p}:{r}' for p, r in res], flush=True)
if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == '--confirm': confirm(a[1:] or sorted(os.listdir(SEED)))
    elif a[0] == '--detect': detect(a[1:] or sorted(os.listdir(SEED)))
    elif a[0] == '--detect-all':
        detect(a[1:] or sorted(os.listdir(SEED)), props=[f'C{i:02d}' for i in range(1, 26)])
    else: write(runpy.run_path(a[0])['PLANTS'], a[1:])
