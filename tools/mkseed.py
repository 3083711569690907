#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE 'old' 'new' [FILE old new ...]: write seeded/ID/patch.diff from textual replacements on /repo HEAD.
The demonstration and meta.json are written separately."""
import os,subprocess,sys,tempfile,shutil
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid=sys.argv[1]; trip=sys.argv[2:]
t=tempfile.mkdtemp(prefix="mkseed")
try:
    subprocess.check_call("git -C /repo archive HEAD src | tar x -C %s && cd %s && git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm b"%(t,t),shell=True)
    for f,o,n in zip(trip[::3],trip[1::3],trip[2::3]):
        p=os.path.join(t,f); s=open(p).read()
        assert s.count(o)==1,(f,s.count(o))
        open(p,"w").write(s.replace(o,n))
    d=os.path.join(V,"seeded",sid); os.makedirs(d,exist_ok=True)
    open(os.path.join(d,"patch.diff"),"w").write(subprocess.check_output(["git","diff"],cwd=t,text=True))
    demo=os.path.join(d,"demo.sh")
    if not os.path.exists(demo):
        open(demo,"w").write('''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); I=$PWD/_build/inst
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -O1 -w -I"$I/include/coin-or" -o "$t/demo" "$d/demo.cpp" -L"$I/lib" -lipopt -Wl,-rpath,"$I/lib" || exit 2
cd "$t" && timeout 120 ./demo
''')
        os.chmod(demo,0o755)
finally:
    shutil.rmtree(t)
