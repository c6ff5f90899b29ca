#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE] – one check.

Builds the code under test from /repo's working tree, runs the generated-input search, writes
evidence/<id>.json. Exit 0: held; 1: VIOLATION line printed; 2: the check itself failed."""
import argparse
import importlib
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import build  # noqa: E402
from checks import CHECKS  # noqa: E402

ENV = dict(os.environ, ASAN_OPTIONS='abort_on_error=0:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4000',
           UBSAN_OPTIONS='print_stacktrace=1', TSAN_OPTIONS='halt_on_error=1:exitcode=66:report_signal_unsafe=0', LC_ALL='C.UTF-8')


def merge(a, b, same_space=True):
    if not a:
        return b
    a['evaluations'] += b['evaluations']
    # the variants run cases of the same space: do not count one case twice
    a['distinct_nontrivial'] = (max if same_space else lambda x, y: x + y)(a['distinct_nontrivial'], b['distinct_nontrivial'])
    a['exhaustive'] = a['exhaustive'] and b['exhaustive']
    for k, v in b['classes'].items():
        a['classes'][k] = a['classes'].get(k, 0) + v
    for s in b['samples']:
        if len(a['samples']) < 24 and s not in a['samples']:
            a['samples'].append(s)
    for s in b.get('assumptions', []):
        if s not in a['assumptions']:
            a['assumptions'].append(s)
    return a


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--arm')
    ap.add_argument('--variant')
    ap.add_argument('--scale', type=float, default=1.0)
    a = ap.parse_args()
    t0 = time.time()
    prop = a.property
    cfg = CHECKS[prop]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    ev_path = os.path.join(VERIF, 'evidence', prop + '.json')
    out_dir = os.path.join(build.BUILD, 'out', f'{prop}-{os.getpid()}')
    os.makedirs(out_dir, exist_ok=True)

    try:
        if cfg.get('py'):
            mod = importlib.import_module(cfg['py'])
            cov, violation = mod.run(prop, a.tier, a.seed, a.replay, out_dir)
        else:
            cov, violation = run_pbt(prop, cfg, a, out_dir)
    except build.BuildError as e:
        print(str(e))
        print(f'{prop}: the code under test or the harness did not build')
        return 2
    finally:
        subprocess.run(['rm', '-rf', out_dir])
    if a.replay:
        return 1 if violation else 0

    evidence = {
        'property': prop, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
        'coverage': {k: v for k, v in cov.items() if k not in ('assumptions', 'violations', 'wall_s')},
        'assumptions': cov.get('assumptions', []) + [
            'the UCD 15.1 text files in /usr/share/unicode are the reference data',
            'results are for this x86-64 machine and these compilers'],
        'wall_s': round(time.time() - t0, 2),
        'violations': 1 if violation else 0,
    }
    tmp = ev_path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, ev_path)
    if violation:
        print(f'VIOLATION property={prop} replay={violation}')
        return 1
    print(f'{prop}: held on everything explored ({cov["evaluations"]} evaluations, {time.time() - t0:.1f} s)')
    return 0


def run_pbt(prop, cfg, a, out_dir):
    tree = build.Tree().prepare()
    t_build = time.time()
    runs = cfg['thorough'] if a.tier == 'thorough' else cfg['quick']
    if a.variant:
        runs = [r for r in cfg['thorough'] + cfg['quick'] if r['variant'] == a.variant][:1]
    if a.replay:
        want, fuzz_bytes = None, ''
        for line in open(a.replay, errors='replace'):
            if line.startswith('variant '):
                want = line.split()[1:]
            elif line.startswith('bytes '):
                fuzz_bytes = line[6:].strip()
        runs = [dict(variant=want[0], harness=want[1] if len(want) > 1 else cfg['harness'])] if want else runs[:1]
    import concurrent.futures as cf
    plugins = []
    with cf.ThreadPoolExecutor(16) as ex:
        if 'builds' in cfg:
            use = [n for n, b in cfg['builds'].items() if a.tier == 'thorough' or not b.get('thorough')]
            if a.replay:
                use = list(cfg['builds'])
            paths = [ex.submit(tree.plugin, n, cfg['builds'][n]) for n in use]
        try:
            exes = list(ex.map(lambda r: tree.harness(r.get('harness', cfg['harness']), r['variant']), runs))
        except build.ProbeError as e:
            print(e)
            replay = os.path.join(VERIF, 'replays', f'{prop}.txt')
            if a.replay != replay:
                with open(replay, 'w') as f:
                    f.write(f'variant {runs[0]["variant"]} {cfg["harness"]}\na use of the header does not compile:\n{e}\n')
            return {'evaluations': 1, 'distinct_nontrivial': 0, 'rule': '', 'samples': [], 'exhaustive': False, 'classes': {}}, replay
        if 'builds' in cfg:
            paths = [p.result() for p in paths]
            if 'prepare' in cfg:
                paths = list(ex.map(cfg['prepare'], paths))
            plugins = [f'{n}={p}' for n, p in zip(use, paths)]
    print(f'{prop}: built in {time.time() - t_build:.1f} s')
    sys.stdout.flush()
    cov, violation = None, None
    merged = set()
    for i, (r, exe) in enumerate(zip(runs, exes)):
        summary = os.path.join(out_dir, f'summary-{i}.json')
        replay = os.path.join(VERIF, 'replays', f'{prop}.txt')
        env = dict(ENV, PBT_TREE=tree.root, PBT_UCD=build.UCD, PBT_PLUGINS='\n'.join(plugins))
        if a.replay and r['variant'] == 'fuzz':
            artifact = os.path.join(out_dir, 'artifact')
            with open(artifact, 'wb') as f:
                f.write(bytes.fromhex(fuzz_bytes))
            p = subprocess.run([exe, artifact, '-timeout=60', '-rss_limit_mb=3000'], env=dict(env, PBT_PROPERTY=prop))
            return {'evaluations': 1}, (a.replay if p.returncode != 0 else None)
        if a.replay:
            p = subprocess.run([exe, '--property', prop, '--replay', a.replay, '--out', out_dir], env=env)
            return {'evaluations': 1}, (a.replay if p.returncode == 1 else None)
        if r['variant'] == 'fuzz':
            c, violation = run_fuzz(prop, r, cfg['harness'], exe, env, out_dir, replay, a)
            cov = merge(cov, c) if c else cov
            if violation:
                break
            continue
        cmd = [exe, '--property', prop, '--tier', a.tier, '--seed', str(a.seed + 1000003 * i), '--out', out_dir,
               '--summary', summary, '--replay-out', replay, '--scale', str(r.get('scale', 1.0) * a.scale),
               '--max-seconds', str(r.get('seconds', 200 if a.tier == 'quick' else 1500))]
        if a.arm:
            cmd += ['--arm', a.arm]
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        text = p.stdout.decode(errors='replace')
        print(f'[{r["variant"]}] ' + text[-12000:].rstrip())
        sys.stdout.flush()
        if p.returncode not in (0, 1):
            raise build.BuildError(f'harness exited with {p.returncode}')
        c = json.load(open(summary))
        c['classes'][f'variant.{r["variant"]}.evaluations'] = c['evaluations']
        cov = merge(cov, c, r.get('harness', cfg['harness']) in merged)
        merged.add(r.get('harness', cfg['harness']))
        if p.returncode == 1:
            with open(replay) as f:
                body = f.read()
            with open(replay, 'w') as f:
                f.write(f'variant {r["variant"]} {r.get("harness", cfg["harness"])}\n' + body)
            violation = replay
            break
    cov['variants'] = [r['variant'] for r in runs]
    return cov, violation


def run_fuzz(prop, r, cfg_harness, exe, env, out_dir, replay, a):
    """Coverage-guided search over the same cases: the fuzzer's bytes are the choices of an arm."""
    seconds = int(r.get('seconds', 120))
    corpus = os.path.join(out_dir, 'corpus')
    os.makedirs(corpus, exist_ok=True)
    if os.path.exists(replay):
        os.unlink(replay)
    env = dict(env, PBT_PROPERTY=prop, PBT_REPLAY_OUT=replay)
    p = subprocess.run([exe, corpus, f'-max_total_time={seconds}', '-jobs=8', '-workers=8', f'-seed={a.seed}', '-max_len=600',
                        '-timeout=60', '-rss_limit_mb=3000', '-print_final_stats=1', f'-artifact_prefix={out_dir}/'],
                       env=env, cwd=out_dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    import glob
    import re
    execs, cov_pts = 0, 0
    logs = ''
    for lf in glob.glob(os.path.join(out_dir, 'fuzz-*.log')):
        t = open(lf, errors='replace').read()
        m = re.findall(r'stat::number_of_executed_units:\s*(\d+)', t)
        execs += int(m[-1]) if m else 0
        m = re.findall(r'cov: (\d+)', t)
        cov_pts = max([cov_pts] + [int(x) for x in m])
        if 'SUMMARY' in t or 'PBT failure' in t or 'ERROR' in t:
            logs += t[-6000:]
    n = len(os.listdir(corpus))
    c = {'evaluations': execs, 'distinct_nontrivial': n, 'rule': '', 'samples': [], 'exhaustive': False,
         'classes': {'fuzz.executions': execs, 'fuzz.coverage_points': cov_pts, 'fuzz.corpus': n}, 'assumptions': [], 'arms': []}
    print(f'[fuzz] {execs} executions, {cov_pts} coverage points, corpus {n}')
    if p.returncode != 0 and logs:
        print(logs)
        arts = [x for x in glob.glob(os.path.join(out_dir, '*')) if re.search(r'/(crash|timeout|oom|leak)-', x)]
        if not os.path.exists(replay) and arts:
            with open(replay, 'wb') as f:
                f.write(f'variant fuzz {r.get("harness", cfg_harness)}\nbytes '.encode() + open(arts[0], 'rb').read().hex().encode() + b'\n\n' + logs[-4000:].encode())
        if os.path.exists(replay):
            body = open(replay, errors='replace').read()
            if not body.startswith('variant'):
                open(replay, 'w').write(f'variant asan {r.get("harness", cfg_harness)}\n' + body)
            return c, replay
    return c, None


if __name__ == '__main__':
    sys.exit(main())
