#!/usr/bin/env python3
"""gen.py FILE.py ...: make and verify seeds described as dicts named SEED."""
import sys, os, json, subprocess, shutil
R="/tmp/sgrepo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.isdir(R): sh("cp -a ${SGSRC:-/repo} "+R)
sh("cd %s && git checkout -q -- . && git fetch -q ${SGSRC:-/repo} && git reset -q --hard FETCH_HEAD && rm -f src/pkgadd src/cards src/*.o; make -s -C src CXX=\"g++ -Wno-unused-result -Wno-format\" pkgadd cards -j8"%R)
def build(): 
    r=sh("cd %s && make -C src CXX=\"g++ -Wno-unused-result -Wno-format\" pkgadd cards -j8 2>&1 | tail -5"%R); return r
for f in sys.argv[1:]:
    ns={}; exec(open(f).read(),ns)
    for s in ns["SEEDS"]:
        if os.environ.get("ONLY") and os.environ["ONLY"] not in s["id"]: continue
        d="/verif/seeded/"+s["id"]; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        for a in s.get("files",["h.sh"]): shutil.copy("/verif/tools/"+a,d)
        open(d+"/demo.sh","w").write("#!/bin/bash\n. \"$(dirname \"$0\")/%s\"\n"%s.get("files",["h.sh"])[0]+s["demo"].lstrip("\n")); os.chmod(d+"/demo.sh",0o755)
        sh("cd %s && git checkout -q -- ."%R); build()
        a=sh("bash %s/demo.sh"%d,cwd=R)
        for (fn,old,new) in s["edits"]:
            p=R+"/"+fn; t=open(p).read(); assert t.count(old)>=1,(s["id"],"not found",old)
            k=s.get("nth",0); i=-1
            for _ in range(k+1): i=t.index(old,i+1)
            open(p,"w").write(t[:i]+new+t[i+len(old):])
        open(d+"/patch.diff","w").write(sh("cd %s && git diff"%R).stdout)
        json.dump({"property":s["property"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(d+"/meta.json","w"),indent=1)
        b0=build()
        b=sh("bash %s/demo.sh"%d,cwd=R)
        print(s["id"],"clean rc",a.returncode,a.stdout[-200:].strip() if a.returncode else "","| patched rc",b.returncode,b.stdout[-150:].strip(), "" if b.returncode else b0.stdout[-300:])
        sh("cd %s && git checkout -q -- ."%R)
