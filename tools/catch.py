#!/usr/bin/env python3
"""usage: catch.py [ID...]   Applies each planted bug to a copy of /repo, runs the quick check of its property (or of all
properties with ALL=1; TIER=thorough for the other tier), and records the outcome in /tmp/plants/catch.json.  The copies of
/repo and /verif are laid over the real ones in a private mount namespace.  A tool of the author's."""
import json, os, re, subprocess, sys, time
if not os.environ.get('INSIDE'):
    c = os.environ.get('COPY', '/tmp/catch')
    os.makedirs(c + '/verif', exist_ok=True); os.makedirs(c + '/repo', exist_ok=True); os.makedirs('/tmp/plants', exist_ok=True)
    # what changed in the seeded folder and the harness is taken over, the copy's build is kept
    subprocess.check_call(f'cd /verif && tar cf - --exclude=./harness/target --exclude=./work --exclude=./.git --exclude=./evidence --exclude=./replays . | tar xf - -C {c}/verif', shell=True)
    subprocess.check_call(f'rm -rf {c}/repo && mkdir {c}/repo && cd /repo && tar cf - --exclude=./target . | tar xf - -C {c}/repo', shell=True)
    subprocess.check_call(['git', '-C', c + '/repo', 'checkout', '-q', '--', '.'])
    os.execvpe('unshare', ['unshare', '-Urm', 'bash', '-c', f'mount --bind {c}/repo /repo && mount --bind {c}/verif /verif && cd /verif && exec python3 {" ".join([c + "/verif/tools/catch.py"] + sys.argv[1:])}'], dict(os.environ, INSIDE='1'))
S = '/verif/seeded'; OUT = os.environ.get('OUT', '/tmp/plants/catch.json')
res = json.load(open(OUT)) if os.path.exists(OUT) else {}
ids = sys.argv[1:] or sorted(os.listdir(S))
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
for i in ids:
    m = json.load(open(f'{S}/{i}/meta.json'))
    assert not subprocess.run('git -C /repo status --porcelain', shell=True, capture_output=True, text=True).stdout
    subprocess.check_call(['git', '-C', '/repo', 'apply', f'{S}/{i}/patch.diff'])
    try:
        for p in (props if os.environ.get('ALL') else [m['property']]):
            t = time.time()
            r = subprocess.run(['./check.sh', p, os.environ.get('TIER', 'quick')], cwd='/verif', capture_output=True, text=True, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
            v = re.findall(r'^VIOLATION property=%s .*' % p, r.stdout, re.M)
            ok = r.returncode == 1 and bool(v)
            res.setdefault(i, {})[p] = [ok, r.returncode, round(time.time() - t), len(v)]
            first = [l for l in r.stdout.split('\n') if l and not l.startswith('VIOL')][:3]
            if ok or not os.environ.get('ALL'): print(i, p, 'CAUGHT' if ok else 'MISSED', r.returncode, '%ds' % (time.time() - t), len(v), (r.stdout[-400:] + r.stderr[-400:]) if not ok else '', flush=True)
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    json.dump(res, open(OUT, 'w'), indent=1)
