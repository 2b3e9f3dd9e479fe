#!/usr/bin/env python3
"""Runs every planted bug (or those named) against the check of its property, in scratch copies, a few
at a time.  Usage: seedtable.py OUT.tsv [WORKERS] [ids...]"""
import json, os, re, subprocess, sys, threading, time, shutil
out = sys.argv[1]
N = int(sys.argv[2]) if len(sys.argv) > 2 else 4
ids = sys.argv[3:] or sorted(os.listdir('/verif/seeded'))
lock = threading.Lock()
todo = list(ids)
res = []
def sh(c, t=900, **kw):
    return subprocess.run(['timeout', '-k', '2', str(t), 'bash', '-c', c], capture_output=True, text=True, errors='replace', **kw)
def work(k):
    W = '/tmp/seedtab/w%d' % k; R = W + '/repo'; V = W + '/verif'
    if not os.path.exists(R):
        os.makedirs(W)
        sh('cp -a /repo %s; git -C %s checkout -q -- .' % (R, R))
    if not os.path.exists(V):
        sh('mkdir -p %s/evidence %s/replays' % (V, V))
    sh('cd /verif; cp -a KNOWN_FINDINGS MANIFEST.json check.sh env.sh properties.jsonl setup.sh replay.sh %s; mkdir -p %s/sim; cp -a sim/Cargo* sim/src sim/*.sh %s/sim/; [ -d sim/.cargo ] && cp -a sim/.cargo %s/sim/' % (V, V, V, V))
    sh("grep -rl '/repo' %s/sim/src %s/sim/Cargo.toml | xargs -r sed -i 's#\"/repo#\"%s#g'" % (V, V, R))
    env = dict(os.environ, CARGO_NET_OFFLINE='true', VERIF_WORKERS=str(max(1, 8 // N)))
    while True:
        with lock:
            if not todo: return
            b = todo.pop(0)
        m = json.load(open('/verif/seeded/%s/meta.json' % b))
        sh('git -C %s checkout -q -- .' % R)
        a = sh('git -C %s apply /verif/seeded/%s/patch.diff' % (R, b))
        t = time.time()
        r = sh('cd %s && ./check.sh %s' % (V, m['property']), env=env)
        o = r.stdout + r.stderr
        n = re.search(r'replay=\S*-(\d+)\.replay', o)
        c = re.search(r'violation of \w+ in run \d+ \(seed \d+\): (.*)', o)
        line = '%s\t%s\t%s\t%s\t%.0f\t%s' % (b, m['property'], 'caught' if r.returncode == 1 else 'MISSED rc=%d%s' % (r.returncode, ' noapply' if a.returncode else ''), n.group(1) if n else '-', time.time() - t, c.group(1)[:90] if c else '')
        with lock:
            res.append(line)
            open(out, 'w').write('\n'.join(sorted(res)) + '\n')
        sh('git -C %s checkout -q -- .' % R)
ts = [threading.Thread(target=work, args=(k,)) for k in range(N)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree('/tmp/seedtab')
print(sum('caught' in x for x in res), 'of', len(res), 'caught')
