#!/usr/bin/env python3
"""coverage.py [SCALE] – which lines of the library the harnesses reach (a development aid; no check uses it).

Builds every harness with clang's source-based coverage, runs every property at SCALE (default 0.1) of its quick counts
and prints the uncovered lines per library file."""
import glob, os, re, subprocess, sys, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, checks

scale = sys.argv[1] if len(sys.argv) > 1 else '0.1'
out = '/tmp/verif-cov'
os.makedirs(out, exist_ok=True)
for f in glob.glob(out + '/*.profraw'):
    os.unlink(f)
tree = build.Tree().prepare()
exes = {}
def one(item):
    prop, cfg = item
    exe = tree.harness(cfg['harness'], 'cov')
    exes[cfg['harness']] = exe
    env = dict(os.environ, PBT_TREE=tree.root, PBT_UCD=build.UCD, LLVM_PROFILE_FILE=f'{out}/{prop}-%2m.profraw')
    p = subprocess.run([exe, '--property', prop, '--tier', 'quick', '--seed', '1', '--out', f'{out}', '--summary', f'{out}/{prop}.json',
                        '--replay-out', f'{out}/{prop}.txt', '--scale', scale, '--max-seconds', '300'], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print(prop, p.returncode, p.stdout.decode(errors='replace')[-200:].strip().replace('\n', ' | '))
items = [(k, v) for k, v in checks.CHECKS.items() if 'harness' in v and v['harness'] not in ('h_threads', 'h_work', 'h_alloc')]
with cf.ThreadPoolExecutor(3) as ex:
    list(ex.map(one, items))
hits, where = {}, {}
for h, e in exes.items():  # one export per harness: the objects share sources, and llvm-cov does not add those up
    mine = [f for f in glob.glob(out + '/*.profraw') if checks.CHECKS[os.path.basename(f).split('-')[0]].get('harness') == h]
    subprocess.run(['llvm-profdata-18', 'merge', '-sparse', '-o', out + '/all.profdata'] + mine, check=True)
    r = subprocess.run(['llvm-cov-18', 'export', '-format=lcov', '-instr-profile', out + '/all.profdata', e],
                       stdout=subprocess.PIPE, check=True).stdout.decode()
    cur = None
    for line in r.splitlines():
        if line.startswith('SF:'):
            cur = line[3:]
        elif line.startswith('DA:') and '/libunicode/' in cur:
            n, k = line[3:].split(',')[:2]
            f = cur.split('/libunicode/', 1)[1]
            where[f] = cur
            hits[(f, int(n))] = hits.get((f, int(n)), 0) + int(k)
for f in sorted(where):
    text = open(where[f]).read().splitlines()
    miss = sorted(n for (g, n), k in hits.items() if g == f and k == 0)
    if miss:
        print(f'== {f}: {len(miss)} of {sum(1 for g, _ in hits if g == f)} lines not reached')
        for n in miss:
            print(f'{n:6d} ' + text[n - 1])
