import json,sys,re,collections
d=json.load(open(sys.argv[1])); n=int(sys.argv[2]) if len(sys.argv)>2 else 15
w=int(sys.argv[3]) if len(sys.argv)>3 else 2
g=collections.OrderedDict()
for v in d['violations']:
    g.setdefault(' '.join(v['key'].split()[:w]),[]).append(v)
for k,vs in list(g.items())[:n]:
    print(len(vs),k); 
    for v in vs[:1]:
        print('    ',v['group'],v['key'])
        for a,b in v['info'].items(): print('         ',a,':',b[:400])
