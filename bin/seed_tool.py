#!/usr/bin/env python3
"""mk.py ID: uses /tmp/seed/ID/{patch.py,demo.cpp|demo.sh,meta.json}; edits /repo, makes the diff, builds, tests, runs demo both ways, checks; installs to /verif/seeded/ID"""
import sys,os,subprocess,json,shutil
sid=sys.argv[1]; src='/tmp/seed/'+sid; dst='/verif/seeded/'+sid
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',**k)
assert sh('git -C /repo status --porcelain').stdout=='' , 'repo dirty'
meta=json.load(open(src+'/meta.json'))
os.makedirs(dst,exist_ok=True)
edits=open(src+'/edit.py').read()
def rep(path,old,new,count=1):
    p='/repo/'+path; s=open(p,newline='').read()
    crlf='\r\n' in s
    if crlf: old=old.replace('\n','\r\n'); new=new.replace('\n','\r\n')
    assert s.count(old)==count,(path,s.count(old))
    open(p,'w',newline='').write(s.replace(old,new))
try:
    exec(edits,{'rep':rep})
    d=sh('git -C /repo diff').stdout
    subprocess.run('git -C /repo diff > %s/patch.diff'%dst,shell=True,check=True)
    shutil.copy(src+'/meta.json',dst)
    for f in os.listdir(src):
        if f.startswith('demo'): shutil.copy(src+'/'+f,dst)
    if not os.path.exists(src+'/demo.sh'):
        libs=meta.pop('_libs',[])
        shim=meta.pop('_shim',True)
        json.dump({k:meta[k] for k in ('property','needs','what_it_breaks')},open(dst+'/meta.json','w'),indent=1)
        if shim: shutil.copytree('/verif/harness/shim',dst+'/shim',dirs_exist_ok=True)
        open(dst+'/demo.sh','w').write('''#!/bin/bash
# Compiles demo.cpp against the library in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=gnu++20 -O0 -w -I"$here/shim" -Isrc/include -Isrc/pdaaal-bin -o "$tmp/demo" "$here/demo.cpp" %s -labsl_hash -labsl_raw_hash_set -labsl_city -labsl_low_level_hash || exit 3
timeout 60 "$tmp/demo"
''' % ' '.join(libs or ['src/include/pdaaal/internal/PDA.cpp']))
    os.chmod(dst+'/demo.sh',0o755)
    r=sh('bash /opt/vp/test.sh /tmp/seed/res.json'); 
    res=json.load(open('/tmp/seed/res.json')); print('tests',len(res['passed']),res['failed'])
    ok = len(res['passed'])==12
    r=sh('bash %s/demo.sh'%dst,cwd='/repo'); print('demo with patch ->',r.returncode,r.stdout[-300:]); ok&= r.returncode not in (0,3)
    for p in ([meta['property']]+[a for a in sys.argv[2:] if a!='nocheck']):
        if 'nocheck' in sys.argv: break
        r=sh('python3 bin/check.py '+p,cwd='/verif'); print('check',p,r.returncode,'\n'.join(r.stdout.splitlines()[:2])[:700])
finally:
    sh('git -C /repo checkout -- .')
r=sh('bash %s/demo.sh'%dst,cwd='/repo'); print('demo clean ->',r.returncode,r.stdout[-300:]); ok&= r.returncode==0
print('VALID' if ok else '*** INVALID')
