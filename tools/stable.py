import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
m=sorted(set(b['stable'])-set(o['passed']))
print('stable',len(b['stable']),'missing',len(m),m[:8])
sys.exit(bool(m))
