#!/usr/bin/env python3
# debugging aid: print a function of an extracted JSON in compact form
import json,sys
d=json.load(open(sys.argv[1])); T=d['types']
def ty(i): return T[i]['s'][:60] if i is not None and i>=0 else '?'
def s(e):
    if e is None: return 'None'
    if isinstance(e,list): return '['+', '.join(s(x) for x in e)+']'
    if not isinstance(e,dict): return repr(e)
    k=e.get('k')
    d={kk:vv for kk,vv in e.items() if kk not in('k','l','usr','mcls','np','pt','mconst','lv','targs')}
    out=[]
    for kk,vv in d.items():
        if kk in('t','ft','mt','at','ret','ct','clt'): out.append(f"{kk}:{ty(vv) if isinstance(vv,int) else s(vv)}")
        else: out.append(f"{kk}={s(vv)}")
    return f"({k} "+' '.join(out)+')'
if len(sys.argv)<3:
    for f in d['functions']: print(f['name'],f['sig'][:90],f['file'].split('/')[-1],f['line'])
    for r in d['records']: print('REC',r['name'],[(x['name'],ty(x['t'])) for x in r['fields']])
else:
    for f in d['functions']:
        if f['name'].endswith(sys.argv[2]):
            print(f['name'],f['sig'],[(p['name'],ty(p['t'])) for p in f['params']])
            if f.get('inits'): print('INITS',s(f['inits']))
            for st in f['body']['b']: print('  ',s(st))
