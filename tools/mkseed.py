# mkseed.py: reads a python file defining ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (go test source), PKG
import sys,os,subprocess,json,shutil
ns={'PKG':'oracle'}
exec(open(sys.argv[1]).read(),ns)
V='/verif/seeded/'+ns['ID']; os.makedirs(V,exist_ok=True)
S='/tmp/sc'
if not os.path.isdir(S): subprocess.check_call(['cp','-a','/repo',S])
h=lambda d: subprocess.check_output(['git','-C',d,'rev-parse','HEAD'])
if h(S)!=h('/repo'): subprocess.check_call('rm -rf /tmp/sc; cp -a /repo /tmp/sc',shell=True)
subprocess.check_call(['git','-C',S,'-c','filter.lfs.smudge=','-c','filter.lfs.process=','-c','filter.lfs.required=false','checkout','-q','--','.'])
for f,o,n in ns['EDITS']:
    s=open(S+'/'+f).read(); assert s.count(o)>=1,(f,o); assert s.count(o)==1,('many',f,o,s.count(o)); open(S+'/'+f,'w').write(s.replace(o,n))
d=subprocess.check_output(['git','-C',S,'diff']).decode(); open(V+'/patch.diff','w').write(d)
subprocess.check_call(['git','-C',S,'-c','filter.lfs.smudge=','-c','filter.lfs.process=','-c','filter.lfs.required=false','checkout','-q','--','.'])
open(V+'/demo_test.go.txt','w').write(ns['DEMO'])
open(V+'/demo.sh','w').write(open('/verif/tools/demo.sh.tmpl').read().replace('PKG',ns['PKG']))
json.dump(dict(property=ns['PROP'],needs=ns['NEEDS'],what_it_breaks=ns['BREAKS']),open(V+'/meta.json','w'),indent=1)
