import sys,subprocess,time,os,glob; sys.path.insert(0,'/verif/vf'); import build
hs=[os.path.basename(x)[:-4] for x in sorted(glob.glob('/verif/harness/h_*.cpp'))]
r=build.build("asan",hs,["tinyobj","testplugin"])
from concurrent.futures import ThreadPoolExecutor
def go(a):
    h,ex,sc=a; n=h+"".join(ex[:2]).replace("-",""); d='/tmp/o/A'+n.replace("/","")[:40]; os.makedirs(d,exist_ok=True)
    t=time.time(); env=dict(os.environ,ASAN_OPTIONS="detect_leaks=1:exitcode=97:detect_stack_use_after_return=1:allocator_may_return_null=1",UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=98",LSAN_OPTIONS="suppressions=/verif/vf/lsan.supp")
    p=subprocess.run([r[h],"--seed",os.environ.get("SEED","1"),"--dir",d,"--out",d+".json","--scale",str(sc),"--part","0","--parts","8"]+ex,stdout=open(d+".log","wb"),stderr=subprocess.STDOUT,env=env)
    return (h,ex[:2],p.returncode,round(time.time()-t,1),open(d+".json.viol").read()[:300])
L=[]
for h in hs:
    ex=[]
    if h=="h_obj": ex=["--plugin",r["tinyobj"]]
    if h=="h_comp": ex=["--plugin",r["testplugin"]]
    sc=float(sys.argv[1])
    if h=="h_parallel": L+=[(h,["--mode","loop"],sc),(h,["--mode","sched"],sc)]
    else: L.append((h,ex,sc))
with ThreadPoolExecutor(8) as e:
    for x in e.map(go,L): print(*x,flush=True)
