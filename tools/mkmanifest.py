"""Writes MANIFEST.json from properties.jsonl, levels.json and the check modules that exist."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = json.load(open(os.path.join(V, 'tools', 'levels.json')))
TRUST = (' Trusted: the fake kernel below cocotb (bound to Icarus Verilog by replaying recorded executions), the monitors '
         'and reference models in mc/, and the bounds listed in the evidence file.')
TRUSTO = (' No clock or scheduler is involved: the real objects are driven directly through every operation sequence. '
          'Trusted: the reference models in mc/ and the bounds listed in the evidence file.')
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if os.path.exists(os.path.join(V, 'mc', 'props', i.lower() + '.py')):
        t, note = LEVEL[i]
        checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
                           technique=t, level='model_checking', level_note=note + (TRUSTO if 'operation sequence' in t else TRUST)))
    else:
        na.append(dict(property=i, reason='check under construction'))
m = dict(version=1, setup_cmd='./check selftest', checks=checks)
m['not_applicable'] = na
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
