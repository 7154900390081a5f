#!/usr/bin/env python3
"""usage: mutate.py WORKERS [FILTER]   Systematic small mutations of /repo's non-test code, each in a scratch copy under
/tmp/mut.  Mutants that build and pass the stable tests are run against the checks of the properties nearest to the file;
results go to /tmp/mut/results.json (killed by tests / caught by ID / missed).  A tool of the author's, not of the checks."""
import json, os, re, shutil, subprocess, sys, threading, time, queue
W = int(sys.argv[1]); FILT = sys.argv[2] if len(sys.argv) > 2 else ''
OUT = '/tmp/mut/results.json'
ORDER = [('src/matrix', 'C15 C06 C05 C21 C08'), ('src/model/function', 'C01 C02 C03 C04 C17 C20 C25'), ('src/model/node_cmp', 'C16'), ('src/model/node_diff', 'C02 C03 C20'),
    ('src/model/node_std', 'C03 C04 C05 C06 C23'), ('src/model/node_func', 'C01 C16'), ('src/model/node', 'C01 C02 C03 C04 C17 C20'), ('src/model/constraint_std', 'C05 C07 C06 C20 C23'),
    ('src/model/constraint', 'C16 C20 C17 C07'), ('src/model/model_std', 'C05 C26 C06 C07 C20 C23 C18'), ('src/model/model', 'C22 C07 C17 C05 C20 C23 C24 C18'), ('src/model', 'C01 C20 C17 C16 C04'),
    ('src/problem', 'C27 C21 C06 C08 C05 C12 C07'), ('src/solver/base', 'C14 C10 C22 C09'), ('src/solver/cbc_cmd', 'C09 C10 C11 C14 C24 C18 C08'), ('src/solver/clp_cmd', 'C09 C10 C14 C24 C18 C11'),
    ('src/solver', 'C13 C12 C14 C24 C19'), ('src', 'C28 C16 C18')]
ALL = ['C%02d' % i for i in range(1, 28)]
stable = set()
b = json.load(open('/opt/vp/BASELINE.json'))
def pool(f):
    for p, c in ORDER:
        if f.startswith(p): return c.split()
REPL = [(r' == ', ' != '), (r' != ', ' == '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' < ', ' > '), (r' > ', ' < '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '),
    (r'\+=', '-='), (r'-=', '+='), (r'\+=', '='), (r' && ', ' || '), (r' \|\| ', ' && '), (r'!(?=[a-z(])(?<![a-z]!)', ''), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\b0\.(?!\d|\.)', '1.'), (r'\b1\.(?!\d|\.)', '0.'), (r'\b1\.(?!\d|\.)', '2.'), (r'-1\.', '1.'),
    (r'(?<![\w.])0(?![\w.])', '1'), (r'(?<![\w.])1(?![\w.])', '0'), (r'(?<![\w.])1(?![\w.])', '2'), (r'(?<![\w.])2(?![\w.])', '3'), (r'\.sin\(\)', '.cos()'), (r'\.cos\(\)', '.sin()'), (r'\bcontinue\b', 'break'), (r'\bbreak\b', 'continue'),
    (r'1e8', '1e7'), (r'1e8', '1e9'), (r'\brow\b', 'col'), (r'\bcol\b', 'row'), (r'\brows\b', 'cols'), (r'\bcols\b', 'rows'), (r'\blhs\b', 'rhs'), (r'\brhs\b', 'lhs'), (r'\bi\b', 'j'), (r'\bj\b', 'i'), (r'_l\b', '_u'), (r'_u\b', '_l'), (r'\bl\b', 'u'), (r'\bu\b', 'l'), (r'lindex', 'uindex'), (r'uindex', 'lindex'),
    (r'\.min\(', '.max('), (r'\.max\(', '.min('), (r'Some\(', 'None.or('), (r'\bif (?!let)(.+) \{', r'if true || (\1) {'), (r'\bif (?!let)(.+) \{', r'if false && (\1) {'), (r'\bmu\b', 'pi'), (r'\bpi\b', 'mu'), (r'\blam\b', 'nu'), (r'\bnu\b', 'lam'), (r'args\.0', 'args.1'), (r'args\.1', 'args.0'),
    (r'\{:\.\d+e\}', '{:.5e}'), (r'\{:\.\d+e\}', '{:.7e}'), (r'is_some', 'is_none'), (r'is_none', 'is_some'), (r'Solved\b', 'Error'), (r'Infeasible\b', 'Error'), (r'Error\b', 'Solved'), (r'Equal\b', 'LessEq'), (r'LessEq\b', 'GreatEq'), (r'GreatEq\b', 'LessEq'), (r'VarInteger', 'VarContinuous'), (r'VarContinuous', 'VarInteger'),
    (r'\.abs\(\)', ''), (r'\.rev\(\)', ''), (r'\.iter\(\)', '.iter().skip(1)'), (r'\.iter\(\)', '.iter().rev()'), (r'\bf1\b', 'f2'), (r'\bf2\b', 'f1'), (r'\ba1\b', 'a2'), (r'\ba\b', 'b'), (r'\bb\b', 'a'), (r'\bx\b', 'y'), (r'\by\b', 'x'), (r'v1\b', 'v2'), (r'v2\b', 'v1'), (r'-(?=[a-z(&*])(?<=[=(, ]-)', '')]
def mutants():
    out = []
    files = subprocess.check_output("cd /repo && git ls-files src | grep rs$", shell=True, text=True).split()
    for f in files:
        if FILT and not re.search(FILT, f): continue
        for n, l in enumerate(open('/repo/' + f).read().split('\n')):
            if 'cfg(test)' in l: break
            s = l.strip()
            if not s or s.startswith(('//', '#', 'use ', 'pub use', 'pub mod', 'mod ', 'impl', 'pub fn', 'fn ', 'pub trait', 'pub struct')): continue
            seen = {l}
            code = l.split(' // ')[0]
            for pat, rep in REPL:
                for m in list(re.finditer(pat, code)):
                    t = l[:m.start()] + m.expand(rep) + l[m.end():]
                    if t not in seen: seen.add(t); out.append((f, n, l, t))
            if s.endswith(';') and not s.startswith(('let ', 'return', 'type', 'const', 'static')) and '{' not in s and code.count('(') == code.count(')'):
                out.append((f, n, l, ''))
    return out
res = json.load(open(OUT)) if os.path.exists(OUT) else {}
todo = queue.Queue(); lock = threading.Lock()
M = mutants()
key = lambda m: f'{m[0]}:{m[1] + 1}: {m[2].strip()} => {m[3].strip()}'
for m in M:
    if key(m) not in res: todo.put(m)
print(len(M), 'mutants,', todo.qsize(), 'to do', flush=True)
def sh(cmd, t, cwd):
    p = subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', cwd=cwd, start_new_session=True)
    try: o, _ = p.communicate(timeout=t); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait(); return 124, ''
def work(k):
    d = f'/tmp/mut/w{k}'
    if not os.path.exists(d):
        os.makedirs(d)
        subprocess.check_call(f'cp -a /repo {d}/repo && mkdir {d}/verif && cd /verif && cp -a check.sh harness known_findings.txt MANIFEST.json properties.jsonl {d}/verif/', shell=True)
        sh(f"sed -i 's#path = \"/repo\"#path = \"{d}/repo\"#' {d}/verif/harness/Cargo.toml", 10, d)
    else:
        subprocess.check_call(f"rsync -a --delete --exclude target /verif/harness/src/ {d}/verif/harness/src/ 2>/dev/null || (rm -r {d}/verif/harness/src && cp -a /verif/harness/src {d}/verif/harness/src); cp /verif/known_findings.txt {d}/verif/", shell=True)
        subprocess.check_call(f'cd {d}/repo && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', shell=True)
    env = '. /opt/vp/env.sh; '
    while True:
        try: f, n, l, t = todo.get_nowait()
        except queue.Empty: return
        p = f'{d}/repo/{f}'
        orig = open(p).read(); L = orig.split('\n'); assert L[n] == l; L[n] = t
        open(p, 'w').write('\n'.join(L))
        try:
            e = f'export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only OMP_NUM_THREADS=1; rm -rf {d}/repo/target/debug/.fingerprint/numopt-*; cd {d}/repo; '
            rc, o = sh(e + 'cargo nextest run --lib --tests --features ipopt --offline --test-threads 1 --tool-config-file vp:/opt/vp/nextest.toml --profile vp --color never --no-run 2>&1', 200, d)
            if rc: r = 'nobuild'
            else:
                rc, o = sh(e + 'cargo nextest run --lib --tests --features ipopt --offline --test-threads 1 --fail-fast --tool-config-file vp:/opt/vp/nextest.toml --profile vp --color never 2>&1', 200, d)
                if rc: r = 'tests'
                else:
                    r = 'MISSED'; tried = []
                    for c in pool(f):
                        rc, o = sh(f'./check.sh {c} quick', 600, f'{d}/verif')
                        tried.append(c + ('' if rc == 0 else f'({rc})'))
                        if rc == 1 and f'VIOLATION property={c} ' in o: r = 'caught ' + c; break
                        if rc == 124: r = 'hang ' + c; break
                    if r == 'MISSED': r = 'MISSED ' + ' '.join(tried)
        finally: open(p, 'w').write(orig)
        with lock:
            res[key((f, n, l, t))] = r
            json.dump(res, open(OUT, 'w'), indent=0)
            if r[0] in 'Mh': print(r, '|', key((f, n, l, t)), flush=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
import collections
print(collections.Counter(v.split()[0] for v in res.values()))
