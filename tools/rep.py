#!/usr/bin/env python3
"""rep.py FILE <<< 'OLD\n=====\nNEW' : replace one exact occurrence (dev helper)."""
import sys
f = sys.argv[1]
parts = sys.stdin.read().split('\n@@@@\n')
s = open(f, newline='').read()
crlf = '\r\n' in s
for blk in parts:
    old, new = blk.split('\n====\n')
    new = new.rstrip('\n') if blk is parts[-1] else new
    old = old.strip('\n'); new = new.strip('\n')
    if crlf:
        old = old.replace('\n', '\r\n'); new = new.replace('\n', '\r\n')
    if s.count(old) != 1:
        print('NOT UNIQUE/FOUND', s.count(old), repr(old)[:200]); sys.exit(1)
    s = s.replace(old, new)
open(f, 'w', newline='').write(s)
