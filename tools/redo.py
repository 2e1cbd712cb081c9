#!/usr/bin/env python3
"""drop expectations (NAME template...) so that gen_spec.py --update records them again"""
import sys
import os; p = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + f'/spec/expected/{sys.argv[1]}.txt'
drop = set(sys.argv[2:]); out = []; skip = False
for l in open(p):
    if l.startswith('>> '): skip = l[3:].rstrip('\n') in drop
    elif l.startswith('==='): skip = False
    if not skip: out.append(l)
open(p, 'w').write(''.join(out))
