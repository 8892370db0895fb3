import json, jsonschema, os, sys
r = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(r + '/properties.jsonl'):
    jsonschema.validate(json.loads(l), s)
jsonschema.validate(json.load(open(r + '/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
print("ok")
