#!/usr/bin/env python3
"""dev/one.py EDIT-NAME PROP: run one check on one edit, showing everything"""
import sys, os, subprocess, tempfile, shutil, glob, importlib.util
HERE=os.path.dirname(os.path.abspath(__file__))
edits=[]
for f in sorted(glob.glob(HERE+"/ed_*.py")):
    sp=importlib.util.spec_from_file_location("x",f); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m); edits+=m.EDITS
e=[e for e in edits if e["name"]==sys.argv[1]][0]
d=tempfile.mkdtemp(prefix="ed_")
subprocess.run(["cp","-a","/repo/source","/repo/include","/repo/Makefile.am","/repo/configure.ac",d],check=True)
for o,n in e["subs"]:
    for f in ([e["file"]] if isinstance(e["file"],str) else e["file"]):
        p=os.path.join(d,f); t=open(p).read()
        if o in t: open(p,"w").write(t.replace(o,n,1)); break
    else: print("EDIT FAILED",o)
env=dict(os.environ,OSLAN_REPO=d,OSLAN_EVID=d)
cmd=sys.argv[2:]
if len(cmd)==1: cmd=[sys.executable,os.path.dirname(HERE)+"/check.py",cmd[0]]
else: cmd=[sys.executable]+cmd
r=subprocess.run(cmd,env=env,cwd=os.path.dirname(HERE)); print("exit",r.returncode)
shutil.rmtree(d)
