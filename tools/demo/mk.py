import subprocess,os,json,shutil,sys
R='/tmp/plant/src'; S=os.environ.get('SEEDDIR','/verif/seeded'); D='/verif/tools/demo'
M='libm/src/math/'
SEEDS={}
def seed(id,prop,needs,breaks,edits,main,debug=False):
    SEEDS[id]=(prop,needs,breaks,edits,main,debug)
exec(open('/tmp/plant/seeds.py').read())
def make(id):
    prop,needs,breaks,edits,main,debug=SEEDS[id]
    subprocess.run(['git','checkout','-q','--','.'],cwd=R,check=True)
    for f,old,new in edits:
        p=R+'/'+M+f; t=open(p).read()
        assert t.count(old)==1,(id,f,old,t.count(old))
        open(p,'w').write(t.replace(old,new))
    d=f'{S}/{id}'; os.makedirs(d,exist_ok=True)
    diff=subprocess.run(['git','diff'],cwd=R,capture_output=True,text=True,check=True).stdout
    open(d+'/patch.diff','w').write(diff)
    subprocess.run(['git','checkout','-q','--','.'],cwd=R,check=True)
    shutil.copy(D+'/common.rs',d); shutil.copy(D+'/demo.sh',d); os.chmod(d+'/demo.sh',0o755)
    open(d+'/main.rs','w').write('mod common;\nuse common::*;\nuse std::hint::black_box;\n'+main)
    if debug: open(d+'/debug','w').write('the demonstration builds without optimisation\n')
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1); open(d+'/meta.json','a').write('\n')
for id in (sys.argv[1:] or SEEDS): make(id); print(id)
