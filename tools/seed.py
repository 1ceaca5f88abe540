#!/usr/bin/env python3
""" seed.py SPEC.py... : SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file,old,new)], DEMO (python source) ; confirms and writes /verif/seeded/ID """
import sys,os,shutil,subprocess,json,xml.etree.ElementTree as ET
BASE=json.load(open('/opt/vp/BASELINE.json'))
def run(spec):
    g={}; exec(open(spec).read(),g)
    for b in g['SEEDS'] if 'SEEDS' in g else [g]:
        one(b)
def one(g):
    id=g['ID']; root='/tmp/seed_%s'%id
    shutil.rmtree(root,ignore_errors=True)
    shutil.copytree('/repo',root,symlinks=True)
    env=dict(os.environ,PYTHONPATH=root,PYTHONDONTWRITEBYTECODE='1',PYTHONHASHSEED='0',GITHUB_ACTIONS='true',PATH='/opt/venv/bin:'+os.environ['PATH'],HOME='/root',LANG='C.UTF-8')
    try:
        for f,o,n in g['EDITS']:
            p=os.path.join(root,f); s=open(p).read()
            if s.count(o)!=1: print(id,'EDIT matches',s.count(o),repr(o[:60])); return
            open(p,'w').write(s.replace(o,n))
        diff=subprocess.run(['git','-C',root,'diff'],capture_output=True,text=True).stdout
        out='/verif/seeded/'+id; tmp=out+'.tmp'
        shutil.rmtree(tmp,ignore_errors=True); os.makedirs(tmp)
        open(tmp+'/patch.diff','w').write(diff)
        open(tmp+'/demo.py','w').write(g['DEMO'])
        open(tmp+'/demo.sh','w').write('#!/bin/bash\n# cwd: the repository\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec timeout 120 /opt/venv/bin/python "$here/demo.py"\n')
        json.dump({'property':g['PROP'],'needs':g['NEEDS'],'what_it_breaks':g['BREAKS']},open(tmp+'/meta.json','w'),indent=1)
        def demo(cwd):
            e=dict(os.environ); e.pop('PYTHONPATH',None)
            return subprocess.run(['bash',tmp+'/demo.sh'],cwd=cwd,env=e,capture_output=True,text=True)
        a=demo('/repo'); b=demo(root)
        ok = a.returncode==0 and b.returncode!=0
        if not ok:
            print(id,'DEMO clean',a.returncode,a.stdout[-300:],a.stderr[-400:],'patched',b.returncode,b.stdout[-300:],b.stderr[-300:]); return
        subprocess.run(['/opt/venv/bin/python','-m','pytest','./tests','-q','-p','no:cacheprovider','--timeout=300','-o','junit_family=xunit2','--junitxml=%s/j.xml'%root],cwd=root,env=env,capture_output=True,text=True)
        passed=set()
        for tc in ET.parse(root+'/j.xml').iter('testcase'):
            if not len([k for k in tc if k.tag in('failure','error','skipped')]):
                passed.add(tc.get('classname')+'::'+tc.get('name'))
        want=g_want()
        miss=[w for w in want if not match(w,passed)]
        if miss: print(id,'TESTS FAIL',len(miss),miss[:4],list(passed)[:2]); return
        shutil.rmtree(out,ignore_errors=True); os.rename(tmp,out)
        for f in ('patch.diff',): pass
        r=subprocess.run(['python3','/verif/check.py',g['PROP'],'--root',root],capture_output=True,text=True,env=dict(os.environ,NOEV='1')) if os.path.exists('/verif/checks/%s.py'%g['PROP'].lower()) else None
        print(id,'OK; demo says:',(b.stdout+b.stderr).strip()[-150:], '| check', r and r.returncode, (r and [l[:250] for l in r.stdout.splitlines() if 'VIOL' in l or 'C' in l][:2]))
    finally:
        shutil.rmtree(root,ignore_errors=True); shutil.rmtree('/verif/seeded/'+id+'.tmp',ignore_errors=True)
def g_want():
    b=BASE
    for k in ('stable','tests','passed','pass','stable_pass'):
        if k in b: return list(b[k])
    raise SystemExit(list(b))
def match(w,passed):
    if w in passed: return True
    n=w.replace('/','.').replace('.py::','.')
    w2=w.split('::')
    for p in passed:
        if p.replace('::','.').replace('/','.').endswith(w.replace('::','.').replace('/','.').replace('.py','').split('junit:')[-1]): return True
    return False
for s in sys.argv[1:]: run(s)
