#!/usr/bin/env python3
import json, sys
for c in sys.argv[1:]:
    d = json.load(open('/verif/evidence/%s.json' % c))
    for p in d['coverage']['parts']:
        for f in p['families']:
            print(c, p['part'], f)
