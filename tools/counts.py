#!/usr/bin/env python3
"""which planted bugs change lines of the original repository (not ones added by commits made here)"""
import os, re, subprocess, sys
BASE = os.environ.get('BASE') or subprocess.run('git -C /repo log --format="%H %s" | grep -v " fix:" | head -1 | cut -d" " -f1', shell=True, capture_output=True, text=True).stdout.strip()
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cache = {}
def added(path):
    if path not in cache:
        out = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-l', '--root', BASE + '..HEAD', '--', path], capture_output=True, text=True).stdout.splitlines()
        cache[path] = {i + 1 for i, l in enumerate(out) if not l.startswith('^') and not l.startswith(BASE)}, len(out)
    return cache[path]
bad = []
for d in sorted(os.listdir(HERE + '/seeded')):
    text = open('%s/seeded/%s/patch.diff' % (HERE, d)).read()
    ok = False
    path = None
    cur = None
    for l in text.splitlines():
        if l.startswith('--- '): path = l[6:]
        elif l.startswith('@@'):
            m = re.match(r'@@ -(\d+)', l); at = int(m[1]); prev = None; block = []
        elif path and l[:1] in ' -+' and not l.startswith('+++') and not l.startswith('---'):
            own, n = added(path)
            if l[0] == ' ':
                at += 1; prev = None
            elif l[0] == '-':
                if at not in own and l[1:].strip() and not l[1:].strip().startswith('#'): ok = True
                at += 1; prev = '-'
            elif prev != '-':
                if at - 1 not in own and at not in own and l[1:].strip(): ok = True
    if not ok: bad.append(d)
print('do not count:', *bad)
