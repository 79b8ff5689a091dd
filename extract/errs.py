import re,sys
L=sys.argv[1]
src=open(L+'.rs').read().split('\n')
log=open(L+'.log').read()
for b in log.split('\n\n'):
    b=b.lstrip('\n')
    if b.startswith('error'):
        h=b.split('\n')[0]
        m=re.search(r'--> '+L+r'\.rs:(\d+)',b)
        if not m: print(h); continue
        n=int(m.group(1)); k=n
        while k>0 and not re.search(r'\bfn \w+',src[k-1]): k-=1
        fn=re.search(r'fn (\w+)',src[k-1]).group(1) if k else '?'
        print(f'{h} @{n} in {fn}: {src[n-1].strip()[:160]}')
        for x in re.finditer(r'^ *(\d+) [|] (.*)$',b,re.M):
            if int(x.group(1))!=n: print('      ',x.group(1),x.group(2).strip()[:170])
        for x in re.finditer(r'^ *= (.*)$',b,re.M): print('       =',x.group(1)[:200])
m=re.search(r'verification results.*',log)
print(m.group(0) if m else log.strip().split('\n')[-1])

import json
for f in json.load(open(L+'.json'))['functions']:
    if f['lost'] or (not f['assumed'] and len(f['loops'])!=f['loops_expected']): print('LOST',f['name'],f['lost'],f['loops'],f['loops_expected'])
for u in json.load(open(L+'.json'))['undecided']: print('UNDECIDED',u)
