#!/usr/bin/env python3
"""Write seeded/<id>/ from seeds.py and confirm each planted change in scratch copies of /repo.

  gen.py [-j N] [ids...]     (scratch copies: /tmp/m/s0..sN-1, left in place for the next run)

For every change: it applies and builds, the stable tests pass with it, its demonstration passes
without and fails with it; then the checks run against the changed copy. The outcome is printed
and kept in /tmp/m/results.json. No check uses this file.
"""
import json, os, re, subprocess, sys, shutil, threading, queue
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, HERE)
import seeds as S

ENV = dict(os.environ, RUST_LOG='off')
for l in open('/opt/vp/env.sh') if os.path.exists('/opt/vp/env.sh') else []:
    if l.startswith('export'):
        ENV.update((k, v) for k, v in re.findall(r'(\w+)=(\S*)', l) if k != 'PATH')
STABLE = {t.split('::', 1)[1].replace('tests/functional.rs::', '') for t in
          json.load(open('/opt/vp/BASELINE.json'))['stable']}

DEMO_SH = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken. Run with cwd = the repository.
HERE=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export RUST_LOG=off
T=program/tests/vp_demo.rs
trap 'rm -f "$PWD/$T"' EXIT
cat "$HERE/harness.rs" "$HERE/demo.rs" > "$T" || exit 2
(cd program && timeout 280 cargo test --offline --quiet %s--test vp_demo -- --test-threads 1)
'''
WASM_SH = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken. Run with cwd = the repository.
HERE=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
D=js/wasm/tests
T=$D/vp_demo.rs
[ -d $D ] || NEW=1
trap 'rm -f "$PWD/$T"; [ -z "$NEW" ] || rmdir "$PWD/$D"' EXIT
mkdir -p $D
cat "$HERE/harness.rs" "$HERE/demo.rs" > "$T" || exit 2
(cd js/wasm && timeout 280 cargo test --offline --quiet --test vp_demo -- --test-threads 1)
'''
JS_SH = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken. Run with cwd = the repository.
HERE=$(cd "$(dirname "$0")" && pwd)
timeout 280 node "$HERE/harness.js" %s
'''


def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, timeout=timeout, shell=isinstance(cmd, str))


def apply(repo, s):
    files = {}
    for e in s['edits']:
        f, old, new = e[:3]
        which = e[3] if len(e) > 3 else None
        p = os.path.join(repo, s['base'], f)
        t = files.get(p) or open(p).read()
        n = t.count(old)
        if which == 'all':
            assert n, (s['id'], 'not found', old)
            t = t.replace(old, new)
        elif which is None:
            assert n == 1, (s['id'], n, old)
            t = t.replace(old, new)
        else:
            assert n > which, (s['id'], n, old)
            parts = t.split(old)
            t = old.join(parts[:which + 1]) + new + old.join(parts[which + 1:])
        files[p] = t
    for p, t in files.items():
        open(p, 'w').write(t)


def write(repo, s):
    d = os.path.join(VERIF, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    diff = sh(['git', 'diff', '--no-color'], repo).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    if s['kind'] == 'rust':
        body = s['demo']
        i = body.find('\nfn open<')
        if body.startswith('\n//'):          # helper items first
            k = body.index("\n}\n", body.index('fn post<')) + 3
            items, body = body[:k], body[k:]
        else:
            items = ''
        open(os.path.join(d, 'demo.rs'), 'w').write(items + '#[test]\nfn demo() {' + body + '}\n')
        shutil.copy(os.path.join(HERE, 'harness.rs'), d)
        feat = '--features %s ' % s['features'] if s['features'] else ''
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH % feat)
    elif s['kind'] == 'js':
        shutil.copy(os.path.join(HERE, 'js_harness.js'), os.path.join(d, 'harness.js'))
        open(os.path.join(d, 'demo.sh'), 'w').write(JS_SH % s['demo'])
    else:
        open(os.path.join(d, 'demo.rs'), 'w').write('#[test]\nfn demo() {' + s['demo'] + '}\n')
        shutil.copy(os.path.join(HERE, 'wasm_harness.rs'), os.path.join(d, 'harness.rs'))
        open(os.path.join(d, 'demo.sh'), 'w').write(WASM_SH)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    return d


def tests(repo):
    out, failed = set(), []
    for c in ('program', 'js/wasm'):
        r = sh('timeout -k 10 400 cargo test --no-fail-fast --offline -- --test-threads 8',
               os.path.join(repo, c))
        if 'could not compile' in r.stdout:
            return 'no build: ' + '\n'.join(l for l in r.stdout.splitlines() if l.startswith('error'))[:300]
        for m in re.finditer(r'^test (\S+) \.\.\. (\w+)', r.stdout, re.M):
            (out.add(m.group(1)) if m.group(2) == 'ok' else failed.append(m.group(1)))
    miss = STABLE - out
    return ('missing ' + ' '.join(sorted(miss))) if miss else ''


def run(repo, s, opts):
    res = {'id': s['id'], 'property': s['property']}
    sh(['git', 'checkout', '-q', '.'], repo)
    apply(repo, s)
    d = write(repo, s)
    try:
        if 'notests' not in opts:
            res['tests'] = tests(repo)
        r = sh(['bash', os.path.join(d, 'demo.sh')], repo)
        res['demo_bad'] = r.returncode
        res['why'] = 'compile' if 'could not compile' in r.stdout else '\n'.join(
            l for l in r.stdout.splitlines() if 'left' in l or 'right' in l or 'panicked' in l)[:200]
        if res['why'] == 'compile':
            res['why'] += '\n'.join(l for l in r.stdout.splitlines() if l.startswith('error'))[:400]
        if 'nochecks' not in opts:
            env = dict(ENV, AOA_REPO=repo, VERIF_TIER='quick')
            r = subprocess.run(['python3', os.path.join(VERIF, 'tools/check.py')] + (['P35', 'P36', 'P41'] if s['kind'] == 'js' else opts['props']),
                               env=env, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True)
            res['caught'] = sorted(set(re.findall(r'VIOLATION property=(\w+)', r.stdout)))
            res['rc'] = r.returncode
            res['log'] = r.stdout[-3000:]
    finally:
        sh(['git', 'checkout', '-q', '.'], repo)
    r = sh(['bash', os.path.join(d, 'demo.sh')], repo)
    res['demo_good'] = r.returncode
    if r.returncode:
        res['good_why'] = r.stdout[-1500:]
    return res


def main():
    a = sys.argv[1:]
    n = 4
    opts = {'props': []}
    if '-j' in a:
        i = a.index('-j'); n = int(a[i + 1]); del a[i:i + 2]
    for k in ('notests', 'nochecks'):
        if '--' + k in a:
            opts[k] = 1; a.remove('--' + k)
    todo = [s for s in S.SEEDS if not a or s['id'] in a or s['property'] in a]
    q = queue.Queue()
    for s in todo:
        q.put(s)
    path = os.environ.get('RESULTS', '/tmp/m/results.json')
    allres = json.load(open(path)) if os.path.exists(path) else {}
    lock = threading.Lock()

    def worker(k):
        repo = '/tmp/m/%s%d' % (os.environ.get('SCRATCH', 's'), k)
        if not os.path.isdir(repo):
            subprocess.run(['cp', '-a', '/repo', repo], check=True)
        while True:
            try:
                s = q.get_nowait()
            except queue.Empty:
                return
            try:
                r = run(repo, s, opts)
            except Exception as e:
                r = {'id': s['id'], 'property': s['property'], 'error': repr(e)[:500]}
                sh(['git', 'checkout', '-q', '.'], repo)
            with lock:
                old = allres.get(s['id'], {})
                old.update(r)
                allres[s['id']] = old
                json.dump(allres, open(path, 'w'), indent=1)
                ok = not r.get('error') and not r.get('tests') and r.get('demo_bad') and r.get('demo_good') == 0
                own = s['property'] in r.get('caught', [])
                print(('ok  ' if ok else 'BAD '), 'CAUGHT' if own else 'missed', s['id'], r.get('caught'),
                      '' if ok else {k: v for k, v in r.items() if k not in ('log',)}, flush=True)
    ts = [threading.Thread(target=worker, args=(k,)) for k in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == "__main__":
    main()
