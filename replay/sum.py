import json,sys
t=sys.stdin.read()
try: d=json.loads(t)
except Exception: print("NO JSON", t[:300]); sys.exit()
print(d['evaluations'],d['distinct'],"fails",len(d['failures']), "known", d['known'])
for f in d['failures'][:8]: print('  ',json.dumps(f)[:400])
