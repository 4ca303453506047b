#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and engine/props.go's levels (engine levels)."""
import json, subprocess, os
d=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lev=json.loads(subprocess.check_output([d+'/bin/engine','levels']))
checks=[]
for l in open(d+'/properties.jsonl'):
    p=json.loads(l)
    e=lev[p['id']]
    checks.append(dict(property=p['id'], quick_cmd=f"VERIF_TIER=quick ./check {p['id']}", thorough_cmd=f"VERIF_TIER=thorough ./check {p['id']}",
        technique=e['technique'], level=e['level'], level_note=e['note']))
m=dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[], notes="No hooks: contracts, ghost accessors and the trace switch are overlaid at build time; /repo carries only fix: commits. See DESIGN.md.")
json.dump(m, open(d+'/MANIFEST.json','w'), indent=1); open(d+'/MANIFEST.json','a').write('\n')
