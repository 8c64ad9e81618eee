import os, json, sys
S={}
def seed(id, needs, breaks, demo, edits):
    S[id]=(needs,breaks,demo,edits)
exec(open(sys.argv[1] if len(sys.argv)>1 else '/tmp/sl/seeds.py').read())
pre=open('/tmp/sl/prelude.rs').read()
for id,(needs,breaks,demo,edits) in S.items():
    d='/tmp/sl/in/'+id; os.makedirs(d,exist_ok=True)
    open(d+'/demo.rs','w').write(pre+demo)
    json.dump({"property":id[:3],"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    if edits is not None:
        with open(d+'/edit.py','w') as f:
            f.write('import sys; sys.path.insert(0,"/tmp/sl"); from ed import rep\n')
            for e in edits: f.write('rep(*%r)\n'%(e,))
