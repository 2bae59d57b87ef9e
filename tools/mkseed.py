import os,subprocess,json,sys,shutil
DEMO='''#!/bin/bash
# compiles the demonstration against the library built by build.sh and runs it
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -w -g -Iinclude -Isrc -Isrc/jnivm -DEnableJNIVMGC -DJNI_DEBUG -DJNI_RETURN_NON_ZERO -DJNIVM_FAKE_JNI_SYNTAX=0 %s"$d/demo.cpp" %s-o "$t/demo" -rdynamic -lpthread -ldl || exit 9
cd "$t" && timeout 60 ./demo
'''
HEAD='#include <jnivm.h>\n#include <cstdio>\n#include <cstring>\n#include <algorithm>\n#include <string>\n#include <vector>\n#include <memory>\n#define CHK(c) do { if(!(c)) { printf("line %d: %s\\n", __LINE__, #c); fflush(stdout); _exit(1); } } while(0)\n#include <unistd.h>\nusing namespace jnivm;\n'
def seed(id,prop,edits,needs,breaks,demo,inc='',libs='_build/default/libjnivm.a '):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True); w='/tmp/mk/w'; shutil.rmtree(w,ignore_errors=True)
    subprocess.run(['git','-C','/repo','worktree','prune']); subprocess.run(['git','clone','-q','/repo',w],check=True)
    for f,old,new in edits:
        p=os.path.join(w,f); s=open(p).read()
        if s.count(old)<1: print(id,'NO MATCH',f,old[:60]); return
        s=s.replace(old,new,1); open(p,'w').write(s)
    open(d+'/patch.diff','w').write(subprocess.run(['git','-C',w,'diff'],capture_output=True,text=True).stdout)
    open(d+'/demo.sh','w').write(DEMO%(inc,libs)); os.chmod(d+'/demo.sh',0o755); open(d+'/demo.cpp','w').write(HEAD+demo)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1); shutil.rmtree(w,ignore_errors=True); print(id)
