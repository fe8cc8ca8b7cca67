import json,sys
p='/verif/tools/checks.json'; L=json.load(open(p))
new=json.load(sys.stdin)
ids={c['id'] for c in new}
L=[c for c in L if c['id'] not in ids]+new
L.sort(key=lambda c:c['id'])
open(p,'w').write('[\n'+',\n'.join(' '+json.dumps(c) for c in L)+'\n]\n')
