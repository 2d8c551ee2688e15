#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os
import props, checks

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in props.P:
        if p['id'] in checks.CHECKS:
            assert p['statement'].count('. ') <= 2, p['id']
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
ids = {p['id'] for p in props.P}
m = dict(version=1, setup_cmd='python3 run.py setup',
         hooks=dict(guard='none', enable='The harness is compiled into the module through a build overlay (go test -c -overlay); /repo holds no hooks.', source_commits=[]),
         checks=[], not_applicable=[])
for k in sorted(checks.CHECKS):
    assert k in ids, k
    c = checks.CHECKS[k]
    m['checks'].append(dict(property=k, quick_cmd='python3 run.py check ' + k, thorough_cmd='VERIF_TIER=thorough python3 run.py check ' + k,
                            technique=c['technique'], level=c['level'], level_note=c['note']))
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
