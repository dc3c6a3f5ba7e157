#!/usr/bin/env python3
"""Adds a `fixed:` line to KNOWN_FINDINGS for each fix commit not listed yet.
usage: mkfixed.py PROPERTY [commit]   (default: HEAD of /repo)"""
import subprocess, sys
K = '/verif/KNOWN_FINDINGS'
pid = sys.argv[1]
c = sys.argv[2] if len(sys.argv) > 2 else 'HEAD'
h, s = subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%h %s', c], text=True).strip().split(' ', 1)
assert s.startswith('fix: ')
t = open(K).read()
if h not in t:
    open(K, 'a').write(f'fixed: property={pid} {h} {s[5:]}\n')
