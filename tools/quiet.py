"""all.py FILE [name-substring..]: every refactoring R of FILE under all checks; -t: also tests"""
import sys; sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))); sys.setrecursionlimit(20000)
import importlib.util, glob, os, re, ast, subprocess, shutil, tempfile
from concurrent.futures import ProcessPoolExecutor, as_completed
from sa.selftest import *
ids=sorted('C'+re.search(r'c(\d+)',os.path.basename(f)).group(1) for f in glob.glob(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/sa/checks/c[0-9]*.py'))
if os.environ.get('IDS'): ids=os.environ['IDS'].split()
def one(a):
    sys.setrecursionlimit(20000)
    name,ed,c=a
    src=apply(ed)
    if src is None: return name,c,'NOAPPLY'
    for v in src.values():
        try: ast.parse(v)
        except SyntaxError as e: return name,c,'SYNTAX %s'%e
    v,d=verdict(c,importlib.import_module('sa.checks.'+c.lower()),src)
    return name,c,v+' '+d
if __name__=='__main__':
    sp=importlib.util.spec_from_file_location('camp',sys.argv[1]); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    flt=sys.argv[2:]
    jobs=[(n,e,c) for n,e in m.R if not flt or any(x in n for x in flt) for c in ids]
    n=0
    with ProcessPoolExecutor(7,max_tasks_per_child=200) as ex:
        for name,c,res in ex.map(one,jobs,chunksize=4):
            n+=1
            if not res.startswith('quiet'): print(name,'|',c,'|',res[:260],flush=True)
    print(n,'done')
