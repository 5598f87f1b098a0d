"""writes MANIFEST.json from the claimed checks and the reasons for the rest"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
CLAIMS = {
    'C12': ('abstract interpretation of the emitter over MIR; parse of the emitted token templates',
            'all expression forms x operators x operand kinds; the emitted template is parsed and compared with the meaning of the form'),
    'C13': ('abstract interpretation of the constant evaluator down to primitive integer operations',
            'all operators x ten integer types x cast pairs'),
    'C16': ('table extraction by abstract interpretation of every scalar table, compared with the type names',
            'ten integer types x two byte orders x each table'),
}
NA = {}
exec(open(os.path.join(V, 'tools', 'claims.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'claims.py')) else None
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
man = {'version': 1, 'setup_cmd': 'python3 -m psv.build', 'checks': [], 'not_applicable': [],
       'notes': 'Every check exports the MIR of the current tree of /repo with a rustc driver and analyses it; nothing of /repo is executed.'}
for p in props:
    i = p['id']
    if i in CLAIMS:
        t, n = CLAIMS[i]
        man['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
                              'technique': t, 'level': 'other', 'level_note': n, 'evidence_file': 'evidence/%s.json' % i})
    else:
        man['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check yet')})
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
