#!/usr/bin/env python3
"""mkseed.py SPEC: writes /verif/seeded/<id> from a spec file (python: id, property, needs, breaks, edits=[(file,old,new)], demo)."""
import sys,os,subprocess,json,shutil
spec={}; exec(open(sys.argv[1]).read(),spec)
R='/repo'; d='/verif/seeded/'+spec['id']; os.makedirs(d,exist_ok=True)
assert not subprocess.check_output(['git','-C',R,'status','--porcelain']).strip()
try:
    for f,old,new in spec['edits']:
        p=f'{R}/{f}'; s=open(p).read(); n=s.count(old)
        assert n==1,(f,n,old)
        open(p,'w').write(s.replace(old,new))
    diff=subprocess.check_output(['git','-C',R,'diff']).decode()
finally:
    subprocess.check_call(['git','-C',R,'checkout','-q','--','.'])
open(d+'/patch.diff','w').write(diff)
open(d+'/demo.rs','w').write(open('/verif/tools/demo/prelude.rs').read()+spec['demo'])
shutil.copy('/verif/tools/demo/demo.sh',d+'/demo.sh')
json.dump({'property':spec['property'],'needs':spec['needs'],'what_it_breaks':spec['breaks']},open(d+'/meta.json','w'),indent=1)
print('wrote',d)
