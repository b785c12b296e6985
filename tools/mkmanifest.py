#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has jobs in jobs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import jobs
NA = {}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    pid = p['id']
    if hasattr(jobs, pid):
        b = '; '.join(j['name'] + ': ' + j['bounds'] for j in jobs.jobs(pid, 'quick'))
        checks.append(dict(property=pid, quick_cmd='python3 run.py %s --tier quick' % pid, thorough_cmd='python3 run.py %s --tier thorough' % pid, evidence_file='evidence/%s.json' % pid,
            technique='symbolic execution of the LLVM bitcode of the real code, decided by Z3', level='model_checking', level_note='Exhaustive within the stated bounds, nothing beyond them. Quick bounds: ' + b))
    else: na.append(dict(property=pid, reason=NA.get(pid, 'no check built yet')))
m = dict(version=1, setup_cmd='bash engine/build.sh', checks=checks, not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); print(len(checks), 'checks', [x['property'] for x in na])
