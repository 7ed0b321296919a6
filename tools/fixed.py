#!/usr/bin/env python3
# tools/fixed.py <property> <n>: record the last n fix commits of /repo (oldest first) in known_findings.txt
import subprocess, sys
prop, n = sys.argv[1], int(sys.argv[2])
log = subprocess.check_output(['git', '-C', '/repo', 'log', '-%d' % n, '--reverse', '--format=%h %s'], text=True).splitlines()
have = open('/verif/known_findings.txt').read()
with open('/verif/known_findings.txt', 'a') as f:
    for l in log:
        h, s = l.split(' ', 1)
        if not s.startswith('fix: ') or h in have: continue
        f.write('fixed: property=%s %s %s\n' % (prop, h, s[5:]))
