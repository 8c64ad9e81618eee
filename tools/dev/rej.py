import re,sys,json,subprocess,os
i=sys.argv[1]; k=int(sys.argv[2]) if len(sys.argv)>2 else 3
acc={int(x) for x in re.findall(r'ACCEPT", (\d+)',open(f'/tmp/w/s{i}.o').read())}
L=open(f'/tmp/w/s{i}.t').read().splitlines()
rej=[n for n in range(1,len(L)+1) if n not in acc]
print(len(rej),[json.loads(L[n-1])['h']['id'] for n in rej][:30])
for n in rej[:k]:
    open('/tmp/w/one.t','w').write(L[n-1]+'\n')
    o=subprocess.run(['tlc','-noGenerateSpecTE','-workers','1','-metadir','/tmp/w/mdx','-config','FastPathsDiagnose.cfg','FastPathsTrace.tla'],cwd='/verif/spec',env=dict(os.environ,TRACE='/tmp/w/one.t'),capture_output=True,text=True).stdout
    ls=[int(x) for x in re.findall(r'l = (\d+)',o)]
    t=json.loads(L[n-1]); l=max(ls) if ls else 1
    print(t['h'],'event',l,'of',len(t['ev']))
    for e in t['ev'][max(0,l-3):l]: print('   ',json.dumps(e)[:900])
