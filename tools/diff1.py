"""show recorded violations compactly, only what differs: tools/diff1.py ID tier n"""
import json,sys,ast
d=json.load(open(f'/verif/out/violations/{sys.argv[1]}-{sys.argv[2]}.json'))
seen=set()
for v in d['violations']:
    i=v['info']
    k=' '.join(v['key'].split(' ')[1:5])
    if k in seen: continue
    seen.add(k)
    print('*',v['key'][:150])
    try:
        a,b=ast.literal_eval(i['got']),ast.literal_eval(i['want'])
        def df(p,a,b):
            if type(a) in (list,tuple) and type(b) is type(a) and len(a)==len(b):
                for n,(x,y) in enumerate(zip(a,b)): df(p+(n,),x,y)
            elif a!=b: print('    ',p,str(a)[:200],'!=',str(b)[:200])
        df((),a,b)
    except Exception:
        for a,b in i.items(): print('     ',a,':',b[:300])
    if len(seen)>=int(sys.argv[3]): break
