import json,sys
c=json.load(open('/verif/checks.json'))
i,level,units,secs,note=sys.argv[1],sys.argv[2],sys.argv[3].split(','),int(sys.argv[4]),sys.argv[5]
d={"level":level,"units":units,"secs":secs,"note":note}
if '--sha1' in sys.argv: d["sha1"]=True
c['properties'][i]=d
json.dump(c,open('/verif/checks.json','w'),indent=1)
