#!/usr/bin/env python3
"""usage: plant.py DEFS.py [ID...]
Makes the planted bugs defined in DEFS.py (BUGS: list of dicts with id, property, needs, breaks,
edits [(file, old, new[, count])], demo (Rust source of a main.rs), ipopt (bool)) in a scratch copy
of /repo, and keeps those in /verif/seeded that build, pass the stable tests and have a demonstration
that passes without and fails with the change.  A tool of the author's; no check uses it."""
import json, os, re, shutil, subprocess, sys
W = '/tmp/plant/repo'
SEED = '/verif/seeded'
DEMO = '''#!/bin/bash
# run with the repository as working directory; exit 0 if the library behaves
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -r "$d"' EXIT
mkdir -p "$d/src" "$d/run"
cp "$here/main.rs" "$d/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2018"\\n[workspace]\\n[dependencies]\\nnumopt = { path = "%s"@FEAT@ }\\nsimple-error = "0.2.1"\\n' "$repo" >"$d/Cargo.toml"
cd "$d" || exit 2
CARGO_TARGET_DIR="$d/target" cargo build --offline --quiet || { echo "demo does not build"; exit 3; }
cd "$d/run" && OMP_NUM_THREADS=1 timeout 120 "$d/target/debug/demo"
'''
PRE = '''#![allow(unused_imports, unused_mut, dead_code)]
use std::collections::HashMap;
use numopt::model::*;
use numopt::model::model_std::ModelStd;
use numopt::model::node_std::NodeStd;
use numopt::model::constraint_std::ConstraintStd;
use numopt::matrix::coo::CooMat;
use numopt::problem::base::{Problem, ProblemSol};
use numopt::problem::lp::ProblemLp;
use numopt::problem::milp::{ProblemMilp, ProblemMilpIO};
use numopt::problem::nlp::ProblemNlp;
use numopt::problem::minlp::ProblemMinlp;
use numopt::solver::base::{Solver, SolverParam, SolverStatus};
use numopt::solver::*;
fn close(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-6 * (1. + a.abs().max(b.abs())) }
'''
def sh(cmd, cwd=W, **k): return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def tests():
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    r = sh('. /opt/vp/env.sh; cd %s; cargo check --workspace --all-targets --offline 2>&1 | tail -5; cargo nextest run --workspace --features ipopt --offline --no-fail-fast --test-threads 1 --color never' % W)
    if 'could not compile' in r.stdout: return 'does not compile\n' + r.stdout[-1500:]
    failed = set()
    for m in re.finditer(r'^\s+(?:FAIL|SIGABRT|SIGSEGV|TIMEOUT|ABORT)\s.*?\]\s+(?:\([^)]*\)\s+)?(\S+)\s+(\S+)', r.stdout, re.M): failed.add(m.group(1) + '::' + m.group(2))
    bad = {f for f in failed if f in stable or f.replace('numopt::', 'numopt::', 1) in stable}
    if bad: return 'stable tests fail: ' + ', '.join(sorted(bad))
    if failed: print('   (unstable or unknown tests failing: %s)' % ', '.join(sorted(failed)))
    if 'tests run:' not in r.stdout: return 'no test run\n' + r.stdout[-1500:]
    return None
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = set(sys.argv[2:])
    if not os.path.isdir(W):
        os.makedirs('/tmp/plant', exist_ok=True)
        subprocess.check_call(['cp', '-a', '/repo', W])
    sh('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git checkout -q -- .')
    base = {}
    for b in ns['BUGS']:
        if want and b['id'] not in want: continue
        sh('git checkout -q -- .')
        err = None
        for e in b['edits']:
            p = os.path.join(W, e[0]); s = open(p).read()
            n = s.count(e[1])
            k = e[3] if len(e) > 3 else 1
            if n != k: err = '%s: %d occurrences instead of %d of %r' % (e[0], n, k, e[1]); break
            open(p, 'w').write(s.replace(e[1], e[2]))
        if err: print(b['id'], 'EDIT', err); continue
        diff = sh('git diff').stdout
        # only lines of the original may change
        cur = None
        for l in diff.split('\n'):
            if l.startswith('--- a/'):
                cur = l[6:]
                base[cur] = base.get(cur) or set(sh('git show 899c42e:' + cur).stdout.split('\n'))
            elif l.startswith('-') and not l.startswith('---') and l[1:] not in base[cur]: err = 'changes a line of ours: ' + l
        if err: print(b['id'], 'LINE', err); continue
        err = tests()
        if err: print(b['id'], 'TEST', err); continue
        d = os.path.join('/tmp/plant', b['id']); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(DEMO.replace('@FEAT@', ', features = ["ipopt"]' if b.get('ipopt') else ''))
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/main.rs', 'w').write(PRE + b['demo'])
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        r = sh(d + '/demo.sh')
        if r.returncode == 0 or r.returncode in (2, 3): print(b['id'], 'DEMO with the change: exit', r.returncode, r.stdout[-800:]); continue
        sh('git checkout -q -- .')
        r = sh(d + '/demo.sh')
        if r.returncode != 0: print(b['id'], 'DEMO without the change: exit', r.returncode, r.stdout[-800:]); continue
        t = os.path.join(SEED, b['id']); shutil.rmtree(t, ignore_errors=True); shutil.copytree(d, t)
        print(b['id'], 'ok', flush=True)
    sh('git checkout -q -- .')
main()
