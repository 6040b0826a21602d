"""run the runtime contract evaluation of properties over many seeds: dev/stress.py N PID..."""
import json,subprocess,sys,os
sys.path.insert(0,'/verif')
from props import PROPS
n=int(sys.argv[1])
for pid in sys.argv[2:] or PROPS:
    P=PROPS[pid]; bad=0
    for seed in range(1,n+1):
        json.dump(dict(modules=P["modules"]+P.get("bmodules",[]),contracts=P.get("contracts",[])+P.get("runtime",[]),bounded=P.get("bounded",[]),seed=seed*31,budget=6,bbudget=15,tier="quick",procs=8),open('/tmp/st.json','w'))
        e=dict(os.environ,PYTHONDONTWRITEBYTECODE="1",NUMBA_DISABLE_JIT="1",PYTHONPATH="/verif",FMK_REPO=os.environ.get("FMK_REPO","/repo"))
        p=subprocess.run(["/opt/venv/bin/python","-m","pyvc.concrete","/tmp/st.json","/tmp/sto.json"],cwd="/tmp",env=e,capture_output=True,text=True)
        if p.returncode: print(pid,seed,"ERR",p.stderr[-400:]); break
        d=json.load(open('/tmp/sto.json'))
        for r in d["contracts"]:
            if r["fail"] or r["error"]:
                bad+=1; print(pid,seed,r["name"].split(":")[-1],str(r["error"] or (r["fail"]["clause"][:80],r["fail"]["args"],r["fail"]["result"]))[:600])
        for r in d["bounded"]:
            if r["findings"] or r["error"]:
                bad+=1; print(pid,seed,r["name"],str(r["error"] or r["findings"][:1])[:500])
    print(pid,"seeds",n,"bad",bad)
