"""tst.py FILE: apply each refactoring to a scratch copy, run tests"""
import sys,subprocess,shutil,os,importlib.util
from concurrent.futures import ThreadPoolExecutor
sp=importlib.util.spec_from_file_location('camp',sys.argv[1]); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
def one(a):
    i,(name,ed)=a
    d='/tmp/s/tst%d'%i
    shutil.rmtree(d,ignore_errors=True); shutil.copytree('/repo',d,ignore=shutil.ignore_patterns('.git'))
    for f,o,n in ed:
        p=os.path.join(d,'pyclibrary',f); s=open(p).read()
        if s.count(o)<1: shutil.rmtree(d); return name,'NOAPPLY '+o[:60]
        open(p,'w').write(s.replace(o,n,1))
    r=subprocess.run(['/opt/venv/bin/python','-m','pytest','-q','-x','--no-header','-p','no:cacheprovider','tests'],cwd=d,env=dict(os.environ,PYTHONPATH=d,PYTHONDONTWRITEBYTECODE='1'),capture_output=True,text=True)
    shutil.rmtree(d)
    return name,'ok' if r.returncode==0 else 'FAIL '+r.stdout[-400:]
with ThreadPoolExecutor(6) as ex:
    for n,res in ex.map(one,enumerate(m.R)):
        if res!='ok': print(n,'->',res)
print(len(m.R))
