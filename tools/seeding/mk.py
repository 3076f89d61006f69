import os,sys,subprocess,json,shutil
SEEDS={}
def seed(id, prop, edits, demo, needs, breaks, cfg="", pre="", cc="gcc", flags=""):
    SEEDS[id]=dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, cfg=cfg, pre=pre, cc=cc, flags=flags)
HEAD='''#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>
#include <malloc.h>
#include <signal.h>
#include <unistd.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
size_t malloc_object_size(const void *p); size_t malloc_object_size_fast(const void *p); void free_sized(void *p, size_t n);
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "demo: failed: %s (line %d)\\n", #c, __LINE__); _exit(1); } } while (0)
#define OP(stmt) ({ fflush(NULL); pid_t p_ = fork(); if (!p_) { close(2); alarm(20); stmt; _exit(0); } int st_; waitpid(p_, &st_, 0); WIFSIGNALED(st_) ? WTERMSIG(st_) : 0; })
'''
def write(id, out="/verif/seeded"):
    s=SEEDS[id]; d=os.path.join(out,id); os.makedirs(d,exist_ok=True)
    sc=scratch()
    for f,a,b in s["edits"]:
        p=os.path.join(sc,f); t=open(p).read()
        assert t.count(a)==1, (id,f,a,t.count(a))
        open(p,"w").write(t.replace(a,b))
    diff=subprocess.check_output(["git","-C",sc,"diff"],text=True)
    open(d+"/patch.diff","w").write(diff)
    subprocess.check_call(["git","-C",sc,"checkout","-q","--","."])
    ext="cc" if s["cc"]=="g++" else "c"
    if s["cfg"]:
        build='make -s -j4 OUT="$work/out" CC=gcc CONFIG_NATIVE=false CONFIG_WERROR=false %s >/dev/null 2>&1 || exit 3\nlib=$work/out'%s["cfg"]
    else: build='lib=$PWD/out'
    open(d+"/demo.sh","w").write('''#!/bin/bash
set -u
unset MAKEFLAGS MFLAGS LD_PRELOAD CPPFLAGS CFLAGS
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/hmdemo.XXXXXXXX) || exit 3
trap 'rm -r "$work"' EXIT
%s
%s -O1 -w -fno-builtin -o "$work/demo" "$here/demo.%s" -L"$lib" -lhardened_malloc -Wl,-rpath,"$lib" -lpthread %s || exit 3
%s
ulimit -c 0
timeout 200 "$work/demo"
'''%(build,s["cc"],ext,s["flags"],s["pre"]))
    os.chmod(d+"/demo.sh",0o755)
    open(d+"/demo."+ext,"w").write((HEAD if ext=="c" else "")+s["demo"])
    json.dump(dict(property=s["prop"],needs=s["needs"],what_it_breaks=s["breaks"]),open(d+"/meta.json","w"),indent=1)
def validate(id):
    d="/verif/seeded/"+id
    sh=lambda *a,**k: subprocess.run(a,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
    r=sh("git","-C","/repo","apply","--check",d+"/patch.diff"); assert r.returncode==0,(id,r.stdout)
    sh("bash","/opt/vp/build.sh"); r=sh("bash",d+"/demo.sh",cwd="/repo"); a=r.returncode; ao=r.stdout
    sh("git","-C","/repo","apply",d+"/patch.diff")
    try:
        r=sh("bash","/opt/vp/build.sh"); b=r.returncode; bo=r.stdout
        r=sh("bash","/opt/vp/test.sh","/tmp/seed/t.json"); t=json.load(open("/tmp/seed/t.json"))
        r=sh("bash",d+"/demo.sh",cwd="/repo"); dd=r.returncode; do=r.stdout
        stable=json.load(open("/opt/vp/BASELINE.json"))["stable"]
        print(id,"clean",a,"build",b,"demo",dd, {k:(len(v) if hasattr(v,'__len__') else v) for k,v in t.items()}, "" if a==0 and dd!=0 else ao[-300:]+do[-300:]+bo[-500:])
        missing=[x for x in stable if x not in t.get("passed",stable)]
        if missing: print("   LOST TESTS",missing)
        return a==0 and b==0 and dd!=0 and not missing
    finally:
        sh("git","-C","/repo","checkout","--","."); 
def scratch():
    sc="/tmp/seed/wt"; os.makedirs("/tmp/seed",exist_ok=True)
    if not os.path.exists(sc): subprocess.check_call(["git","-C","/repo","worktree","add","--detach","-f",sc,"HEAD"],stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
    head=subprocess.check_output(["git","-C","/repo","rev-parse","HEAD"],text=True).strip()
    subprocess.check_call(["git","-C",sc,"checkout","-q","--","."]); subprocess.check_call(["git","-C",sc,"checkout","-q","--detach",head])
    return sc
def check(id,prop=None):
    d="/verif/seeded/"+id
    sh=lambda *a,**k: subprocess.run(a,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
    prop=prop or json.load(open(d+"/meta.json"))["property"]
    sc=scratch()
    assert sh("git","-C",sc,"apply",d+"/patch.diff").returncode==0
    try:
        r=sh("python3","tools/check.py",prop,"quick",cwd="/verif",env=dict(os.environ,HM_REPO=sc))
        print("CHECK",id,prop,"->",r.returncode,[l for l in r.stdout.split("\n") if l.strip()][-2:] and "\n      ".join(x[:260] for x in r.stdout.strip().split("\n")[-2:]),flush=True)
        return r.returncode==1
    finally: sh("git","-C",sc,"checkout","--",".")
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"defs.py")).read())
if __name__=="__main__":
    ids=sys.argv[2:] or list(SEEDS)
    for i in ids:
        if "w" in sys.argv[1]: write(i)
        if "v" in sys.argv[1]: validate(i)
        if "c" in sys.argv[1]: check(i)
    if "v" in sys.argv[1]: subprocess.run(["bash","/opt/vp/build.sh"],stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
