import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open(sys.argv[1]))
bad=[x for x in b if x not in t['passed']]
print("stable", len(b), "failing:", bad)
