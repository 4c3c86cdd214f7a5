#!/usr/bin/env python3
"""writes MANIFEST.json: every property with a check in vmon/ is claimed, the rest is listed as not applicable"""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
have = set()
for p in glob.glob(os.path.join(here, 'vmon', 'chk_*.py')):
    have |= set(re.findall(r"prop = '(C\d\d)'", open(p).read()))
notes = json.load(open(os.path.join(here, 'tools', 'levels.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        t, n = notes[i]
        checks.append(dict(property=i, quick_cmd=f'./run.sh {i} --tier quick', thorough_cmd=f'./run.sh {i} --tier thorough',
                           technique='runtime monitoring: ' + t, level='exploration', level_note=n))
    else:
        na.append(dict(property=i, reason='no check has been built for it yet'))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
               notes='All monitors attach from /verif by calling and wrapping the public interface at run time; /repo carries no hooks.'),
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
