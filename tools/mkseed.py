"""mkseed.py SPEC.py...: builds seeded/<id>/ from a spec (dict S: id, property, needs, what, edits=[(file,old,new)],
demo=C++ main, srcs=[.cc of /repo], libs=[]), confirming in a scratch copy of /repo that the patch applies, the build and
the stable tests pass, and the demonstration passes before and fails after."""
import sys, os, subprocess, json, shutil
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC='/tmp/seedscratch'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
DEMO='''#!/bin/bash
# Compiles demo.cc against the tree in the current directory and runs it.
D="$(cd "$(dirname "$0")" && pwd)"; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
bash "$D/mkshim.sh" "$T/gen" || exit 3
%sF="-std=c++20 -O1 -w -ffunction-sections -fdata-sections -I$T/gen -I$D/shim -I$PWD -include absl/base/attributes.h -include absl/base/optimization.h -include cstddef -DAROLLA_SHARED_COMPILATION -DAROLLA_IMPLEMENTATION -fsanitize=address,undefined -fno-sanitize=vptr,function,alignment -fno-sanitize-recover=all"
i=0; O=""
for s in "$D/demo.cc" %s; do i=$((i+1)); O="$O $T/$i.o"; clang++-18 $F -c "$s" -o "$T/$i.o" & [ $((i%%8)) = 0 ] && wait; done; wait
clang++-18 -fsanitize=address,undefined -Wl,--gc-sections $O -o "$T/demo" %s -lpthread || exit 3
cd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
'''
def reset():
    if not os.path.exists(SC): sh(f'cp -a /repo {SC}')
    sh(f'git -C {SC} checkout -q -- . && git -C {SC} fetch -q /repo && git -C {SC} reset -q --hard FETCH_HEAD')
def main(fn):
    ns={}; exec(open(fn).read(),ns); ok=True
    for S in ns['SEEDS']:
        reset(); d=f'{V}/seeded/{S["id"]}'
        if os.path.exists(d+'/meta.json') and '-f' not in sys.argv: continue
        if os.path.exists(d): shutil.rmtree(d)
        os.makedirs(d); shutil.copytree(V+'/shim',d+'/shim'); shutil.copy(V+'/tools/mkshim.sh',d)
        for f,a,b in S['edits']:
            p=f'{SC}/{f}'; t=open(p).read()
            if t.count(a)!=1: print('EDIT MATCHES',t.count(a),S['id'],f); ok=False
            open(p,'w').write(t.replace(a,b))
        open(d+'/patch.diff','w').write(sh(f'git -C {SC} diff').stdout)
        open(d+'/demo.cc','w').write(S['demo'])
        pr=''
        if S.get('protos'): pr='for p in '+' '.join(S['protos'])+'; do protoc --cpp_out="$T/gen" -I"$PWD" $p || exit 3; done\n'
        open(d+'/demo.sh','w').write(DEMO%(pr,' '.join(S.get('srcs',[])),' '.join(S.get('libs',['-lprotobuf -Wl,--start-group $(ls /usr/lib/x86_64-linux-gnu/libabsl_*.a) -Wl,--end-group -licuuc -licudata'] if S.get('srcs') is not None else []))))
        json.dump(dict(property=S['property'],needs=S['needs'],what_it_breaks=S['what']),open(d+'/meta.json','w'),indent=1)
        bad=sh(f'bash {d}/demo.sh',cwd=SC)
        # the build scripts name /repo: they run with the scratch copy mounted there, in a private mount namespace
        sh(f'git -C {SC} checkout -q -- .'); good=sh(f'bash {d}/demo.sh',cwd=SC)
        a=sh(f'git -C {SC} apply {d}/patch.diff'); ns_="unshare -m bash -c 'mount --make-rprivate / && mount --bind %s /repo && %s'"
        b=sh(ns_%(SC,'bash /opt/vp/build.sh')); t=sh(ns_%(SC,'bash /opt/vp/test.sh /tmp/seedout.json'))
        sh(f'git -C {SC} checkout -q -- .')
        base=json.load(open('/opt/vp/BASELINE.json')); out=json.load(open('/tmp/seedout.json'))
        want=set(base.get('passed',base.get('stable',[]))) if isinstance(base,dict) else set(base)
        miss=[x for x in want if x not in set(out.get('passed',[]))]
        res=good.returncode==0 and bad.returncode not in(0,3) and a.returncode==0 and b.returncode==0 and not miss
        print(('OK ' if res else 'BAD'),S['id'],'good',good.returncode,'bad',bad.returncode,'apply',a.returncode,'build',b.returncode,'missing tests',len(miss),len(want))
        if not res: print((good.stdout+good.stderr)[-1500:],'\n----\n',(bad.stdout+bad.stderr)[-800:],b.stdout[-500:]); ok=False; shutil.move(d,f'/tmp/badseed_{S["id"]}') if not os.path.exists(f'/tmp/badseed_{S["id"]}') else shutil.rmtree(d)
for f in sys.argv[1:]:
    if f!='-f': main(f)
