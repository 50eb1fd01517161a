"""mutation tests: list of (file, old, new) edits -> dump -> rules.  usage: run.py mutfile rulecmd..."""
import sys, subprocess, os, shutil, concurrent.futures, importlib.util
REPO='/repo'
def one(i, m, cmd):
    w=(os.environ.get('MUTW') or os.path.dirname(os.path.abspath(sys.argv[1]))+'/w')+'%d'%(i%4); 
    name, edits = m[0], m[1]; os.makedirs(w+'/repo', exist_ok=True)
    subprocess.run(['rsync','-a','--delete','--exclude','/target','--exclude','.git','--exclude','node_modules',REPO+'/',w+'/repo/'],check=True) if shutil.which('rsync') else subprocess.run('mkdir -p %s/repo && rm -rf %s/repo/src && cp -a /repo/src /repo/Cargo.toml /repo/Cargo.lock %s/repo/ && mkdir -p %s/repo/dashboard/dist && cp -a /repo/dashboard/dist/. %s/repo/dashboard/dist/ 2>/dev/null; ls /repo/build.rs >/dev/null 2>&1 && cp /repo/build.rs %s/repo/; for x in tests benches sdk; do [ -e /repo/$x ] && [ ! -e %s/repo/$x ] && cp -a /repo/$x %s/repo/; done; true'%((w,)*8),shell=True,check=True)
    for f,a,b in edits:
        p=w+'/repo/'+f; s=open(p).read()
        if a not in s: return (name,'EDIT-FAILED '+a[:60])
        s=s.replace(a,b,1); open(p,'w').write(s)
    env=dict(os.environ,HOME='/root',PATH='/opt/vp/skip-dashboard:/root/.cargo/bin:'+os.environ['PATH'],CARGO_NET_OFFLINE='true',RUSTUP_TOOLCHAIN='nightly',CARGO_TARGET_DIR=w+'/target',NEXO_MIR_OUT=w+'/out',RUSTC_WORKSPACE_WRAPPER='/verif/build/driver/debug/mirdump')
    sysroot=subprocess.run(['rustc','--print','sysroot'],env=env,capture_output=True,text=True).stdout.strip()
    env['LD_LIBRARY_PATH']=sysroot+'/lib'
    shutil.rmtree(w+'/out',ignore_errors=True); os.makedirs(w+'/out')
    subprocess.run('rm -rf %s/target/debug/.fingerprint/nexo-*'%w,shell=True)
    r=subprocess.run(['cargo','check','--offline','--lib','--bins'],cwd=w+'/repo',env=env,capture_output=True,text=True)
    if r.returncode: return (name,'NO-COMPILE '+r.stderr[-600:])
    r=subprocess.run(cmd,env=dict(os.environ,NX_OUT=w+'/out',NX_REPO=w+'/repo'),capture_output=True,text=True)
    return (name,(r.stdout+r.stderr))
if __name__=='__main__':
    sp=importlib.util.spec_from_file_location('m',sys.argv[1]); mm=importlib.util.module_from_spec(sp); sp.loader.exec_module(mm)
    only=os.environ.get('ONLY','').split(',') if os.environ.get('ONLY') else None
    ms=[m for m in mm.M if not only or m[0] in only]
    groups=[[] for _ in range(4)]
    for i,m in enumerate(ms): groups[i%4].append((i,m))
    def grp(g): return [one(i,m,sys.argv[2:]) for i,m in g]
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for r in ex.map(grp,groups):
            for name,o in r:
                lines=[l for l in o.splitlines() if not l.startswith('{') and ('|' in l or 'Traceback' in l or 'Error' in l or l.startswith(('EDIT','NO-COMP')))]
                print('=== %s: %s'%(name,('CRASH' if 'Traceback' in o else 'BADEDIT' if o.startswith(('EDIT','NO-C')) else 'CAUGHT') if lines else 'silent'))
                for l in lines[:4]: print('      ',l[:200])
