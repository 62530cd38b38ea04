import json, sys
for s in json.load(open('/verif/evidence/%s.json' % sys.argv[1]))['coverage']['scenarios']: print({k: v for k, v in s.items()})
