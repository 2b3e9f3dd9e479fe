#!/usr/bin/env python3
"""Which lines of the library no check reaches.
usage: run the checks with VERIF_COVER=/tmp/cov/<ID>, then tools/uncovered.py /tmp/cov/*"""
import re, subprocess, sys, collections
B = '/verif/sim/target/release/dbsim'
hit = set()
for f in sys.argv[1:]:
    hit |= {int(x) for x in open(f).read().split()}
nm = subprocess.run(['nm', B], capture_output=True, text=True).stdout
start = [int(l.split()[0], 16) for l in nm.splitlines() if l.endswith('__start___sancov_guards')][0]
pc = {}
last = None
p = subprocess.Popen(['objdump', '-d', '--no-show-raw-insn', B], stdout=subprocess.PIPE, text=True)
for l in p.stdout:
    m = re.search(r'(?:lea|mov)\s.*%rdi', l)
    if m:
        m = re.search(r'# ([0-9a-f]+)', l) or re.search(r'\$0x([0-9a-f]+),%[re]di', l)
        last = int(m.group(1), 16) if m else None
    elif 'call' in l and '__sanitizer_cov_trace_pc_guard>' in l:
        a = int(l.split(':')[0], 16)
        if last:
            pc.setdefault((last - start) // 4 + 0, []).append(a)
idx = sorted(pc)
addrs = [(i, a) for i in idx for a in pc[i]]
o = subprocess.run(['addr2line', '-e', B, '-i', '-a'] + [], input='\n'.join(hex(a) for _, a in addrs), capture_output=True, text=True).stdout
blocks = re.split(r'^(0x[0-9a-f]+)$', o, flags=re.M)[1:]
lines = {}
for (i, a), k in zip(addrs, range(0, len(blocks), 2)):
    fr = [x for x in blocks[k + 1].split('\n') if '/repo/src' in x]
    if fr:
        lines.setdefault(re.sub(r' \(disc.*', '', fr[0]), set()).add(i)
print(len(hit), 'edges reached of', len(pc))
miss = collections.defaultdict(list)
for l, s in lines.items():
    # cov arrays count guards from 1
    if not any(i + 1 in hit for i in s):
        f, n = l.rsplit(':', 1)
        if n.isdigit():
            miss[f].append(int(n))
for f in sorted(miss):
    print(f, sorted(miss[f]))
