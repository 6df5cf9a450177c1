import sys,subprocess,os,concurrent.futures as cf,time,re
sys.path.insert(0,'/verif'); sys.path.insert(0,'/verif/vf')
scale=sys.argv[1]; hs=sys.argv[2:] or [f[:-4] for f in sorted(os.listdir('/verif/harness')) if f.startswith('h_') and f.endswith('.cpp')]
def go(h):
    P=subprocess.run(['python3','/tmp/bp.py','plain',h],capture_output=True,text=True).stdout.strip()
    d='/tmp/o/vg-'+h; os.makedirs(d,exist_ok=True); t=time.time()
    p=subprocess.run(['timeout','600','valgrind','-q','--error-exitcode=99','--num-callers=25','--log-file=/tmp/o/vg-%s.log'%h,P,'--seed',os.environ.get('SEED','1'),'--scale',scale,'--dir',d,'--out','/tmp/o/vg-%s.json'%h],capture_output=True,text=True,errors='replace',cwd=d)
    return h,p.returncode,time.time()-t
with cf.ThreadPoolExecutor(8) as ex:
    for h,rc,t in ex.map(go,hs):
        L=open('/tmp/o/vg-%s.log'%h,errors='replace').read()
        print(h,rc,'%.1f'%t,len(re.findall(r'uninit',L)),len(re.findall('Invalid',L)))
