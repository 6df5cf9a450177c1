import subprocess,os,json,sys,shutil
PRE=r'''#include <lm/lm.h>
#include <cstdio>
#include <cmath>
#include <fstream>
#include <sstream>
#include <thread>
#include <atomic>
#include <unistd.h>
using namespace lm;
static int bad = 0;
#define EXPECT(c) do { if (!(c)) { printf("FAILED: %s (line %d)\n", #c, __LINE__); bad++; } } while (0)
static bool near_(double a, double b, double e = 1e-6) { return std::fabs(a - b) <= e * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }
'''
SH='''#!/bin/bash
# Run in /repo after the build: 0 = behaves, non-zero = broken.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -r "$tmp"' EXIT
g++ -std=gnu++17 -O1 -w -fopenmp -DGLM_FORCE_INTRINSICS -DLM_USE_CONFIG_RELEASE -DFMT_HEADER_ONLY=1 -I/repo/include -I/repo/_build %(inc)s \\
    "$here/demo.cpp" -o "$tmp/demo" -L/repo/_build/bin -llm -Wl,-rpath,/repo/_build/bin -lstdc++fs -ldl -lpthread || exit 4
cd "$tmp" && %(env)stimeout 200 ./demo
'''
def mk(id,prop,needs,breaks,edits,demo,env='',inc='',files=None):
    d='/verif/seeded/'+id
    os.makedirs(d,exist_ok=True)
    subprocess.check_call(['git','-C','/repo','diff','--quiet'])
    try:
        for f,prs in edits:
            p='/repo/'+f; b=open(p,'rb').read(); crlf=b'\r\n' in b; s=b.decode()
            for a,c in prs:
                if crlf: a=a.replace('\n','\r\n'); c=c.replace('\n','\r\n')
                assert s.count(a)==1,(f,a,s.count(a)); s=s.replace(a,c)
            open(p,'wb').write(s.encode())
        diff=subprocess.run(['git','-C','/repo','diff','--binary'],capture_output=True).stdout
        open(d+'/patch.diff','wb').write(diff)
    finally:
        subprocess.check_call(['git','-C','/repo','checkout','--','.'])
    if demo is not None:
        open(d+'/demo.cpp','w').write(PRE+demo+('' if 'int main' in demo else ''))
        open(d+'/demo.sh','w').write(SH%dict(env=env,inc=inc)); os.chmod(d+'/demo.sh',0o755)
    for n,t in (files or {}).items():
        open(d+'/'+n,'w').write(t); os.chmod(d+'/'+n,0o755 if n.endswith('.sh') else 0o644)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
