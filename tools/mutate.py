#!/usr/bin/env python3
"""mutate.py FILE IDS [--max N] [--lines A-B,C-D] [--cov LCOV] [--seed N] [--slot K]
Looks for blind spots: makes small changes to FILE (of /repo), one at a time, in a scratch copy
bind-mounted over /repo, and runs the checks IDS (comma-separated) until one reports a violation.
Prints the changes nothing notices. Not part of any check."""
import argparse, json, random, subprocess, os, shutil, sys, time
a = argparse.ArgumentParser()
a.add_argument('file'); a.add_argument('ids'); a.add_argument('--max', type=int, default=10**9)
a.add_argument('--lines'); a.add_argument('--cov'); a.add_argument('--seed', type=int, default=1); a.add_argument('--slot', default='0'); a.add_argument('--jobs', default='8')
o = a.parse_args()
base = f'/tmp/s/mu{o.slot}'
os.makedirs(base, exist_ok=True)
copy = f'{base}/repo'
shutil.rmtree(copy, ignore_errors=True)
subprocess.run(['cp', '-a', '/repo', copy], check=True)
# the checks run from a copy, so that replays and evidence of /verif are left alone
verif = f'{base}/verif'
shutil.rmtree(verif, ignore_errors=True)
subprocess.run(['rsync', '-a', '--exclude', '.git', '--exclude', 'replays', '--exclude', 'evidence', '/verif/', verif + '/'], check=False) if shutil.which('rsync') else subprocess.run(['cp', '-a', '/verif', verif], check=True)
src = open(f'/repo/{o.file}', encoding='utf8').read()
ms = [json.loads(l) for l in subprocess.run(['node', '/verif/tools/mutants.cjs', f'/repo/{o.file}'], capture_output=True, text=True, check=True).stdout.splitlines()]
if o.lines:
    rs = [tuple(map(int, r.split('-'))) for r in o.lines.split(',')]
    ms = [m for m in ms if any(x <= m['line'] <= y for x, y in rs)]
if o.cov:
    cov, cur = set(), None
    for l in open(o.cov):
        if l.startswith('SF:'): cur = l.strip()[3:]
        elif l.startswith('DA:') and cur.endswith('/repo/' + o.file):
            n, c = l[3:].strip().split(',')[:2]
            if int(c) > 0: cov.add(int(n))
    ms = [m for m in ms if m['line'] in cov]
random.Random(o.seed).shuffle(ms)
ms = sorted(ms[:o.max], key=lambda m: m['line'])
print(f'{o.file}: {len(ms)} changes', flush=True)
# utf16 offsets
u16 = src.encode('utf-16-le')
killed = 0
env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')
for m in ms:
    t = (u16[:2 * m['start']] + m['text'].encode('utf-16-le') + u16[2 * m['end']:]).decode('utf-16-le')
    open(f'{copy}/{o.file}', 'w', encoding='utf8').write(t)
    t0 = time.time()
    res = []
    for i in o.ids.split(','):
        r = subprocess.run(['unshare', '-rm', 'bash', '-c', f'mount --bind {copy} /repo && cd {verif} && exec timeout 300 ./run.sh check.ts {i} --jobs {o.jobs}'], capture_output=True, text=True, env=env)
        res.append(r.returncode)
        if r.returncode != 0: break
    k = res[-1]
    if k == 1: killed += 1
    else: print(f'{"SURVIVES" if k == 0 else f"rc={k}"} {o.file}:{m["line"]} {m["what"]} ({time.time()-t0:.0f} s)', flush=True)
print(f'{o.file}: {killed}/{len(ms)} noticed', flush=True)
shutil.rmtree(copy, ignore_errors=True); shutil.rmtree(verif, ignore_errors=True)
