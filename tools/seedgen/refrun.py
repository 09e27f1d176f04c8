#!/usr/bin/env python3
"""Apply the behaviour-preserving edits of refactors.py to scratch copies; the stable tests must pass
and the checks must stay quiet.  refrun.py [-j N] [--notests] [ids or prefixes...]   (copies: /tmp/m/r0..)"""
import json, os, re, subprocess, sys, threading, queue
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.argv, ARGS = sys.argv[:1] + ['--none'], sys.argv[1:]
import gen as G
import refactors as RF


def main():
    a = ARGS
    n, nt = 4, False
    if '-j' in a:
        i = a.index('-j'); n = int(a[i + 1]); del a[i:i + 2]
    props = []
    if '--props' in a:
        i = a.index('--props'); props = a[i + 1].split(','); del a[i:i + 2]
    if '--notests' in a:
        nt = True; a.remove('--notests')
    todo = [s for s in RF.R if not a or any(s['id'].startswith(x) for x in a)]
    q = queue.Queue()
    for s in todo:
        q.put(s)
    path = '/tmp/m/refs.json'
    res = json.load(open(path)) if os.path.exists(path) else {}
    lock = threading.Lock()

    def one(repo, s):
        G.sh(['git', 'checkout', '-q', '.'], repo)
        try:
            G.apply(repo, s)
        except AssertionError as e:
            return {'bad': 'apply ' + repr(e)[:300]}
        r = {}
        try:
            if not nt:
                t = G.tests(repo)
                if t:
                    return {'bad': t}
            p = subprocess.run(['python3', os.path.join(G.VERIF, 'tools/check.py')] + props,
                               env=dict(G.ENV, AOA_REPO=repo, VERIF_TIER='quick'), cwd=G.VERIF,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            r['rc'] = p.returncode
            r['alarms'] = sorted(set(re.findall(r'VIOLATION property=(\w+)', p.stdout)))
            r['log'] = '\n'.join(l for l in p.stdout.splitlines() if 'holds' not in l)[-6000:]
        finally:
            G.sh(['git', 'checkout', '-q', '.'], repo)
        return r

    def worker(k):
        repo = '/tmp/m/r%d' % k
        if not os.path.isdir(repo):
            subprocess.run(['cp', '-a', '/repo', repo], check=True)
        while True:
            try:
                s = q.get_nowait()
            except queue.Empty:
                return
            try:
                r = one(repo, s)
            except Exception as e:
                r = {'bad': repr(e)[:500]}
            with lock:
                res[s['id']] = r
                json.dump(res, open(path, 'w'), indent=1)
                print('BAD  ' if r.get('bad') else ('quiet' if r['rc'] == 0 else 'ALARM'), s['id'], r.get('bad', ''), r.get('alarms', ''), flush=True)
    ts = [threading.Thread(target=worker, args=(k,)) for k in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
