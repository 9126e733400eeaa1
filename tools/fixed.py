"""tools/fixed.py PROP COMMIT WHAT... : record a repaired defect in known_findings.json"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(p))
prop, commit, what = sys.argv[1], sys.argv[2], ' '.join(sys.argv[3:])
d.setdefault('fixed', []).append('fixed: property=%s %s %s' % (prop, commit, what))
json.dump(d, open(p, 'w'), indent=1)
