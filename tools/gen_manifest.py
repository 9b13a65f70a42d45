"""Writes MANIFEST.json: claims every property with a module under dst/props."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NA = {
    'C30': 'A pure function of its arguments: no schedule, clock, fault, interleaving or history for a '
           'simulator to decide. The geometry is exercised inside simulated episodes by C05, C16, C17, C19 and C22.',
    'C31': 'A pure function of its arguments: no schedule, clock, fault, interleaving or history for a '
           'simulator to decide. The utilities are exercised inside simulated episodes by C01, C02, C05, C08 and C22.',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif os.path.exists(os.path.join(here, 'dst', 'props', i.lower() + '.py')):
        checks.append({
            'property': i,
            'quick_cmd': f'python3 check.py {i}',
            'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {i}',
            'evidence_file': f'evidence/{i}.json',
            'technique': 'deterministic simulation with fault injection (seeded search, reference model, minimised replay)',
            'level': 'exploration',
            'level_note': 'Seeded simulated runs of the real code against an independent reference; a clean '
                          'batch is evidence over the sampled scenarios, histories and faults, not proof. '
                          'Trusts numpy, the synthetic scenario source and the reference model in dst/.',
        })
    else:
        na.append({'property': i, 'reason': 'No check has been built for it (yet).'})
m = {'version': 1,
     'setup_cmd': 'python3 tools/setup.py',
     'hooks': {'guard': 'none', 'enable': 'No hooks were needed: the public API takes scenario, action, key and '
               'file paths as arguments; the checks import /repo/waymax as it stands.', 'source_commits': []},
     'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', [x['property'] for x in na])
