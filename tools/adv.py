import json,re,sys,importlib.util,subprocess,os,shutil,tempfile
from concurrent.futures import ThreadPoolExecutor
V=os.environ.get('V','/verif')
spec=importlib.util.spec_from_file_location('c',sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only=sys.argv[2:] 
und_={}
def und(o):
    if isinstance(o,dict):
        if isinstance(o.get('undecided'),list): yield from o['undecided']
        for v in o.values(): yield from und(v)
def one(c):
    pid,f,old,new=c[:4]; nth=c[4] if len(c)>4 else 0
    d=tempfile.mkdtemp(prefix='adv_')
    try:
        shutil.copytree('/repo/src',d+'/src',ignore=shutil.ignore_patterns('*.so','__pycache__','*.c'))
        p=os.path.join(d,'src/flowstab',f); s=open(p).read()
        ms=list(re.finditer(r'\n(?:[ \t]*\n)*'.join(re.escape(re.sub(r'\n+','\n',old)).split('\\\n')),s))
        if len(ms)<nth+1: return c,'STALE',''
        s=s[:ms[nth].start()]+new+s[ms[nth].end():]
        open(p,'w').write(s)
        out=[]
        for q in pid.split('+'):
            r=subprocess.run(['/opt/venv/bin/python',V+'/check.py',q],env=dict(os.environ,SA_REPO=d,SA_EVID=d),capture_output=True,text=True)
            try: u=[(x['rule'],x['construct'],str(x['why'])[:160]) for x in und(json.load(open(d+'/%s.json'%q)))]
            except Exception: u=[]
            und_[id(c)]=und_.get(id(c),[])+u
            out.append((q,r.returncode if r.returncode != 1 or "VIOLATION" in r.stdout else 3,r.stdout[-400:]+r.stderr[-300:]))
        return c,'fire' if any(o[1]==1 for o in out) else 'quiet',out
    finally: shutil.rmtree(d)
nums=[int(x) for x in os.environ.get('NUMS','').split(',') if x]
if nums: cs=[(os.environ.get('PIDS') or m.CASES[i][0],)+tuple(m.CASES[i][1:]) for i in nums]
else: cs=[c for c in m.CASES if not only or any(o in c[0] for o in only)]
miss=0
with ThreadPoolExecutor(8) as ex:
    for n_,(c,g,o) in enumerate(ex.map(one,cs)):
        if g!='fire':
            miss+=1
            print('#%d'%(nums[n_] if nums else n_),g,c[0],c[1],repr(c[2][:90]),'->',repr(c[3][:110]))
            if g=='quiet':
                for u in und_.get(id(c),[])[:4]: print('      UND',*u)
                print('     ',' ; '.join(x[2].strip().split('\n')[-1] for x in o))
print(len(cs),'cases',miss,'missed')
