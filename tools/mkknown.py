#!/usr/bin/env python3
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(H, 'known-findings.json')
d = json.load(open(p)) if os.path.exists(p) else {'known': []}
d['fixed'] = ['fixed: property=%s %s %s' % tuple(l.rstrip('\n').split('|')) for l in open(os.path.join(H, 'tools', 'fixed.txt'))]
json.dump(d, open(p, 'w'), indent=1); open(p, 'a').write('\n')
