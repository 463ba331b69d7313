"""writes MANIFEST.json from the registry and properties.jsonl"""
import json, sys
sys.path.insert(0, '/verif')
from engine.props import REGISTRY
NA = {
}
PENDING = 'check under construction'
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
NOTE = ('Sound up to the modelled library calls: abstract interpretation of the MIR of /repo (rustc driver dump), path-sensitive, loops by widening/fixpoint; '
        'a path the analysis cannot follow precisely is reported as undecided in the evidence, never as held. ')
m = {
    'version': 1,
    'setup_cmd': 'python3 -m engine.build',
    'checks': [{
        'property': i,
        'quick_cmd': 'python3 check.py %s quick' % i,
        'thorough_cmd': 'python3 check.py %s thorough' % i,
        'technique': 'static analysis: ' + (REGISTRY[i][3] if len(REGISTRY[i]) > 3 else 'abstract interpretation over MIR'),
        'level': 'other',
        'level_note': NOTE + 'Trusts rustc, the model of std/tokio/byteorder/snafu calls in engine/models.py and the wire format as written in engine/props.',
    } for i in ids if i in REGISTRY],
    'not_applicable': [{'property': i, 'reason': NA.get(i, PENDING)} for i in ids if i not in REGISTRY],
    'notes': 'No hooks in /repo. See DESIGN.md.',
}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
