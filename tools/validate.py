import json,jsonschema,glob,re
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    p=json.loads(l); jsonschema.validate(p,s)
    n=len(re.findall(r'[.?!](\s|$)',p['statement']))
    if n>3: print(p['id'],'sentences',n)
    for f in p['anchors']['files']:
        import os
        if not os.path.exists('/repo/'+f): print(p['id'],'no file',f)
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(json.load(open(f)),e)
