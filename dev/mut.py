"""dev: apply textual mutations to a copy, verify contract, print failures.  usage: mut.py module func file 'old=>new' ..."""
import sys,os,shutil,subprocess,tempfile
mod,func,rel=sys.argv[1:4]
for spec in sys.argv[4:]:
    old,new=spec.split("=>")
    d=tempfile.mkdtemp(prefix="mut"); 
    shutil.copytree("/repo/finmlkit",d+"/finmlkit")
    p=d+"/"+rel; s=open(p).read()
    assert s.count(old)>=1,(old,s.count(old))
    s=s.replace(old,new,1); open(p,"w").write(s)
    r=subprocess.run(["python3-vt","t.py",mod,func],capture_output=True,text=True,env=dict(os.environ,FMK_REPO=d))
    print("MUT",spec,"\n ",r.stdout[:900],r.stderr[-300:]); shutil.rmtree(d)
