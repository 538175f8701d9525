import json,jsonschema,sys,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=set()
for l in open(V+'/properties.jsonl'):
    d=json.loads(l); jsonschema.validate(d,s); ids.add(d['id'])
    for f in d['anchors']['files']: assert os.path.exists('/repo/'+f),(d['id'],f)
    for m in d['anchors']['mechanism']: assert os.path.exists('/repo/'+m['where'].split(':')[0]),(d['id'],m)
if os.path.exists(V+'/MANIFEST.json'):
    m=json.load(open(V+'/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
    c={x['property'] for x in m['checks']}; n={x['property'] for x in m.get('not_applicable',[])}
    print('unlisted',ids-c-n,'unknown',(c|n)-ids,'both',c&n)
es=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in os.listdir(V+'/evidence'):
    jsonschema.validate(json.load(open(V+'/evidence/'+f)),es)
print('ok',len(ids))
