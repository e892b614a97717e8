import sys,subprocess
def fix(msg, *edits):
    files=set()
    for f,a,b in edits:
        s=open('/repo/'+f).read()
        assert s.count(a)==1,(f,a,s.count(a))
        open('/repo/'+f,'w').write(s.replace(a,b)); files.add(f)
    subprocess.check_call(['git','-C','/repo','add']+sorted(files))
    subprocess.check_call(['git','-C','/repo','commit','-qm','fix: '+msg])
