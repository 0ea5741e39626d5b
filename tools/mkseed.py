"""mkseed: helper; import and call seed(...)"""
import os, subprocess, json, shutil, stat
V='/verif/seeded'
DEMO='''#!/bin/bash
# Compiles demo.cpp against the built tree and runs it.
d=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp -d)
trap 'rm -rf "$o"' EXIT
cd /repo/_build || exit 2
L=/usr/lib/llvm-20
$L/bin/clang++ -std=c++20 -O1 -w -I/repo -Igen -isystem /opt/vp/heir/shim -isystem $L/include -isystem /usr/include/eigen3 %s \\
  "$d/demo.cpp" %s \\
  -fuse-ld=lld -L$L/lib -Wl,-rpath,$L/lib -lisl -lMLIR -lLLVM-20 -labsl_int128 -lpthread -o "$o/demo" || exit 2
timeout 120 "$o/demo"
'''
def seed(id, prop, edits, needs, breaks, cpp=None, objs=(), flags='', sh=None, files=()):
    w='/tmp/mkseedwt'
    subprocess.run(['git','-C','/repo','worktree','prune'])
    shutil.rmtree(w, ignore_errors=True); subprocess.run(['git','-C','/repo','worktree','prune'])
    os.makedirs(w)
    subprocess.run(f'git -C /repo archive HEAD | tar x -C {w}',shell=True,check=True)
    subprocess.run(f'cd {w} && git init -q . && git add -A && git -c user.email=a@b -c user.name=x commit -qm x',shell=True,check=True)
    for f,old,new in edits:
        t=open(f'{w}/{f}').read(); assert t.count(old)==1,(id,f,t.count(old),old)
        open(f'{w}/{f}','w').write(t.replace(old,new))
    p=subprocess.run(['git','-C',w,'diff'],capture_output=True,text=True).stdout
    d=f'{V}/{id}'; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(p)
    if cpp: open(d+'/demo.cpp','w').write(cpp)
    for n,t in files: open(d+'/'+n,'w').write(t)
    open(d+'/demo.sh','w').write(sh or DEMO%(flags,' '.join('obj/'+o+'.o' for o in objs)))
    os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    shutil.rmtree(w)
    print(id,'ok')
