import os,subprocess,json,shutil
R='/repo'
def plant(id,prop,edits,demo,needs,breaks,extra=None):
    """edits: list of (file, old, new)"""
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    assert subprocess.run(['git','-C',R,'diff','--quiet']).returncode==0
    try:
        for f,a,b in edits:
            p=R+'/'+f; s=open(p,newline='',encoding='latin-1').read()
            if '\r\n' in s: a=a.replace('\n','\r\n'); b=b.replace('\n','\r\n')
            assert s.count(a)==1,(id,f,s.count(a),a)
            open(p,'w',newline='',encoding='latin-1').write(s.replace(a,b))
        diff=subprocess.check_output(['git','-C',R,'diff'])
        open(d+'/patch.diff','wb').write(diff)
    finally:
        subprocess.check_call(['git','-C',R,'checkout','-q','--','.'])
    open(d+'/demo.cpp','w').write(demo)
    shutil.copy('/tmp/plant/demo.sh',d+'/demo.sh'); os.chmod(d+'/demo.sh',0o755)
    for n,t in (extra or {}).items(): open(d+'/'+n,'w').write(t)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    print('planted',id)
