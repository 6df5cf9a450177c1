import subprocess,os
os.chdir('/repo')
def ed(f,*prs,msg=None,cnt=None):
    b=open(f,'rb').read(); crlf=b'\r\n' in b
    s=b.decode('utf-8')
    for a,c in prs:
        if crlf: a=a.replace('\n','\r\n'); c=c.replace('\n','\r\n')
        assert a in s,(f,a); s=s.replace(a,c)
    open(f,'wb').write(s.encode('utf-8'))
    if msg: subprocess.check_call(['git','commit','-qam',msg])
