import json,sys
for c in sys.argv[1:]:
    e=json.load(open(f'evidence/{c}.json'));print(json.dumps(e['coverage']['counts'],ensure_ascii=False)); print([(x['name'],x['states'],x['vectors'],round(x['secs'])) for x in e['coverage']['explorations']])
