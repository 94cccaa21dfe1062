#!/usr/bin/env python3
"""prints the replay of a property: tools/show.py C03"""
import json, os, sys
d = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'replays', sys.argv[1] + '.json')))
for k, v in d.items():
    if k != 'choices': print(k, ':', v if not isinstance(v, (list, dict)) else json.dumps(v, indent=0)[:4000])
