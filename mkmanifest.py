"""writes MANIFEST.json from properties.jsonl and plan.py"""
import json
import plan

props = [json.loads(x) for x in open('properties.jsonl', encoding='utf8')]
checks, na = [], []
for p in props:
    i = p['id']
    try:
        plan.jobs(i, 'quick')
    except SystemExit:
        na.append(dict(property=i, reason='no check registered for it (yet); see DESIGN.md'))
        continue
    t, note = plan.describe(i)
    checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} quick', thorough_cmd=f'python3 check.py {i} thorough', technique=t,
                       level='model_checking', level_note=note))
m = dict(version=1, setup_cmd='python3 setup_check.py', checks=checks, not_applicable=na,
         notes='No hooks in /repo: every observation goes through the public API of the library.')
json.dump(m, open('MANIFEST.json', 'w', encoding='utf8'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
