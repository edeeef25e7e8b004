#!/usr/bin/env python3
"""mkseed.py SPEC.py...: build seeded/<id>/ from a spec (ID, PROPERTY, EDITS=[(file,old,new)], NEEDS, BREAKS, DEMO)."""
import sys,os,subprocess,json,tempfile,shutil
for sp in sys.argv[1:]:
    g={}; exec(open(sp).read(),g)
    for s in g['SEEDS']:
        t=tempfile.mkdtemp(); subprocess.check_call(['git','-C','/repo','worktree','add','-q','--detach',t+'/w','HEAD'])
        try:
            for f,o,n in s['edits']:
                p=t+'/w/'+f; x=open(p).read()
                assert x.count(o)==1,(s['id'],f,x.count(o),o)
                open(p,'w').write(x.replace(o,n))
            d='/verif/seeded/'+s['id']; os.makedirs(d,exist_ok=True)
            open(d+'/patch.diff','w').write(subprocess.check_output(['git','-C',t+'/w','diff'],text=True))
        finally: subprocess.call(['git','-C','/repo','worktree','remove','--force',t+'/w']); shutil.rmtree(t)
        shutil.copy('/verif/tools/demo_template.sh',d+'/demo.sh'); os.chmod(d+'/demo.sh',0o755)
        open(d+'/demo.cpp','w').write(s['demo'])
        json.dump(dict(property=s['prop'],needs=s['needs'],what_it_breaks=s['breaks']),open(d+'/meta.json','w'),indent=1)
        print('made',s['id'])
