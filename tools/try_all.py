#!/usr/bin/env python3
"""Run quick checks against changes in scratch copies, several at once.

usage: try_all.py [-j N] [--own] [--tier T] dir-or-patch...   (a directory holds patch.diff and meta.json)
--own: only the check of the property the change was planted against.
Works in /tmp/tw/<k>, one clone of /repo and copy of harness/ per worker; the caller removes /tmp/tw.
"""
import argparse, json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
ap = argparse.ArgumentParser()
ap.add_argument('-j', type=int, default=3); ap.add_argument('--own', action='store_true'); ap.add_argument('--tier', default='quick')
ap.add_argument('--ids', default=''); ap.add_argument('-v', action='store_true'); ap.add_argument('patch', nargs='*')
a = ap.parse_args()
IDS = ['C%02d' % i for i in range(1, 33)]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0')
def sh(c, cwd=None, t=1200):
    try:
        r = subprocess.run(c, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=t)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
q = Queue()
for k in range(a.j):
    w = f'/tmp/tw/{k}'; os.makedirs(w, exist_ok=True)
    if not os.path.exists(w + '/repo'): sh(f'git clone -q /repo {w}/repo')
    sh(f'git fetch -q; git reset -q --hard origin/HEAD; git clean -fdq', w + '/repo')
    sh(f'mkdir -p {w}/harness; rm -rf {w}/harness/src; cp -a {V}/harness/src {V}/harness/Cargo.toml {V}/harness/Cargo.lock {w}/harness/; cp -a {V}/harness/build.rs {V}/harness/runtime.c {w}/harness/; cp {V}/known-findings.txt {V}/build.sh {w}/')
    p = w + '/harness/Cargo.toml'; s = open(p).read().replace('"/repo"', f'"{w}/repo"'); open(p, 'w').write(s)
    q.put(w)
def one(p):
    w = q.get()
    try:
        d = p if os.path.isdir(p) else None
        patch = os.path.abspath(p + '/patch.diff' if d else p)
        ids = IDS
        prop = json.load(open(p + '/meta.json'))['property'] if d and os.path.exists(p + '/meta.json') else None
        if a.own and prop: ids = [prop]
        if a.ids: ids = a.ids.split(',')
        sh('git checkout -q -- .', w + '/repo')
        rc, o = sh(f'git apply {patch}', w + '/repo')
        if rc: return p, prop, 'NOAPPLY ' + o, []
        caught, err, txt = [], [], []
        rest = [i for i in ids if i not in ('C28', 'C30')]
        for group in (rest, [i for i in ids if i == 'C28'], [i for i in ids if i == 'C30']):
            if not group: continue
            rc, o = sh(f'bash build.sh {group[0]} 2>build.log || {{ cat build.log; exit 1; }}', w)
            if rc: return p, prop, 'NOBUILD ' + o[-500:], []
            mc = o.strip().splitlines()[-1]
            for i in group:
                rc, o = sh(f'{mc} {i} --tier {a.tier} --evidence ev.json --replay ev.{i}.txt --known known-findings.txt', w)
                if rc == 1 and f'VIOLATION property={i}' in o: caught.append(i); txt.append((i, [l for l in o.splitlines() if 'KNOWN' not in l][-4:]))
                elif rc: err.append(f'{i}:{rc}:{o[-200:]}')
        return p, prop, ('MISSED ' if prop and prop not in caught else '') + 'caught [' + ' '.join(caught) + ']' + (f' errors {err}' if err else ''), txt
    finally:
        sh('git checkout -q -- .', w + '/repo'); q.put(w)
with ThreadPoolExecutor(a.j) as ex:
    for f in [ex.submit(one, p) for p in a.patch]:
        p, prop, r, txt = f.result()
        print(os.path.basename(p.rstrip('/')), prop, r, flush=True)
        if a.v:
            for i, t in txt: print('   ', i, *t, sep='\n      ', flush=True)
