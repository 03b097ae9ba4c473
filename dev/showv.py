import json,sys
d=json.load(open(sys.argv[1]))
r=d['replay']
prog=r['program']
def dec(l):
    w=l.split()
    o=[]
    for x in w:
        try:
            if len(x)%2==0 and len(x)>=2 and not x.isdigit() : o.append(repr(bytes.fromhex(x).decode('latin1')))
            elif len(x)%2==0 and x.isdigit() and len(x)<10 and int(x)>=20 and w[0] in('rec','use','hold','del','list','race'): o.append(repr(bytes.fromhex(x).decode('latin1')))
            else: o.append(x)
        except ValueError: o.append(x)
    return ' '.join(o)
for i,l in enumerate(prog): print(i,dec(l)[:200])
ev=r['recorded']
print(len(ev))
def nm(x): return ''.join(chr(c) for c in x)
for e in ev[-int(sys.argv[2]) if len(sys.argv)>2 else -2:]:
    print(e['e'])
    for k,v in e.items():
        if k in('disk','bak','found','list','got'):
            for x in v: print('   ',k,{kk:(nm(vv) if kk=='n' else [(b['t']%100000,b['s']) for b in vv] if kk=='b' else vv) for kk,vv in x.items()} if isinstance(x,dict) else nm(x))
        elif k!='e': print('   ',k,v)
