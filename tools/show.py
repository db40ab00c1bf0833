import json,sys
lines=open(sys.argv[1]).read().splitlines()
c=json.loads(lines[int(sys.argv[2])-1]); l=int(sys.argv[3])
print({k:c[k] for k in c if k not in('frames','log','boxes','script')}); print(c.get('script'))
for b in c['boxes']: print('  box',b)
for k,f in enumerate(c['frames']): print(k+1,{a:f[a] for a in f if a not in('pix','ms','dur')})
for k,e in enumerate(c['log']):
  if k<l: print(k+1,{a:e[a] for a in e if a not in ('pix',)})
