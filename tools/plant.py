import os, subprocess, json, shutil, tempfile, sys, re
PY="/opt/venv/bin/python"
ENV={**os.environ,"PYTHONDONTWRITEBYTECODE":"1","PYTHONHASHSEED":"0"}
BASE=json.load(open('/opt/vp/BASELINE.json'))
def bp(x):
    for k in ("passed","stable_pass","tests","stable"):
        if k in x:
            v=x[k]; return set(v) if isinstance(v,list) else set(v.keys())
def seed(id, prop, needs, breaks, edits, demo):
    t=tempfile.mkdtemp(prefix="seed-")
    try:
        subprocess.run(["cp","-a","/repo/.",t],check=True)
        for f,old,new in edits:
            p=os.path.join(t,f); s=open(p).read()
            if s.count(old)!=1: print(id,"EDIT not unique",f,s.count(old),repr(old[:60])); return
            open(p,"w").write(s.replace(old,new))
        diff=subprocess.run(["git","diff"],cwd=t,capture_output=True,text=True).stdout
        # original lines?
        mine=[]
        for f,old,new in edits:
            b=subprocess.run(["git","blame","-s","f0bb8e7..HEAD","--",f],cwd="/repo",capture_output=True,text=True).stdout.splitlines()
            removed=[]
            for h in re.finditer(r"^-(?!--)(.*)$",subprocess.run(["git","diff","-U0","--",f],cwd=t,capture_output=True,text=True).stdout,re.M): removed.append(h.group(1))
            for r in removed:
                hit=[l for l in b if l.split(")",1)[1][1:]==r]
                if hit and all(not l.startswith("^") for l in hit): mine.append(r.strip())
        tp=subprocess.run([PY,"-m","pytest","-q","-x","-p","no:cacheprovider","tests"],cwd=t,env=ENV,capture_output=True,text=True)
        tl=tp.stdout.strip().splitlines()[-1]
        d=f"/verif/seeded/{id}"; os.makedirs(d,exist_ok=True)
        open(d+"/patch.diff","w").write(diff)
        open(d+"/demo.py","w").write("import os, sys\nsys.path.insert(0, os.getcwd())\n"+demo.strip()+"\n")
        open(d+"/demo.sh","w").write('#!/bin/sh\n# exits 0 when the property holds; run in the repository\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d+"/demo.sh",0o755)
        json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
        c=subprocess.run(["sh",d+"/demo.sh"],cwd="/repo",capture_output=True,text=True)
        m=subprocess.run(["sh",d+"/demo.sh"],cwd=t,capture_output=True,text=True)
        ok=tp.returncode==0 and c.returncode==0 and m.returncode!=0
        print(id,prop,"OK" if ok else "BAD","| tests",tl,"| demo clean",c.returncode,"patched",m.returncode,m.stderr.strip().splitlines()[-1:] , "MINE" if mine else "",mine)
        if not ok:
            if c.returncode: print(c.stderr[-600:])
            if tp.returncode: print("\n".join(l for l in tp.stdout.splitlines() if l.startswith(("FAILED","E "))) [:600])
            shutil.rmtree(d)
    finally: shutil.rmtree(t)
