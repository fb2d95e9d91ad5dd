"""Compiles units against /repo's current tree: to LLVM IR (symbolic) and to a native runner."""
import os, subprocess, hashlib, re, sys, json
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('VP_REPO','/repo')
B=os.environ.get('VP_BUILD',V+'/_build')
CXX='clang++-18'
INC=['-I'+B+'/shim','-I'+V+'/shim','-I'+V+'/vc','-I'+REPO]
COMMON=['-std=c++20','-w']+INC+['-include','absl/base/attributes.h','-include','absl/base/optimization.h','-include','cstddef','-fno-access-control','-DVP_VERIFY','-DAROLLA_SHARED_COMPILATION','-DAROLLA_IMPLEMENTATION']
SAN=['-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,unreachable,return,array-bounds,bool','-fsanitize-trap=all']
class CompileError(Exception): pass
def sh(cmd,**k):
    r=subprocess.run(cmd,capture_output=True,text=True,**k)
    if r.returncode: raise CompileError(' '.join(cmd[:3])+' ...\n'+'\n'.join([l for l in r.stderr.split('\n') if 'error' in l or 'undefined' in l][:8])+'\n'+r.stderr[:900])
    return r.stdout
def setup():
    """generated shim headers and protobuf code"""
    st=B+'/shim/.done'
    if os.path.exists(st): return
    os.makedirs(B+'/shim',exist_ok=True)
    sh(['bash',V+'/tools/mkshim.sh',B+'/shim'])
    protos=[]
    for d,_,fs in os.walk(REPO+'/arolla'):
        protos+=[os.path.join(d,f) for f in fs if f.endswith('.proto')]
    for p in sorted(protos): subprocess.run(['protoc','--cpp_out='+B+'/shim','-I'+REPO,p],capture_output=True)
    open(st,'w').write('ok')
PASSES='function(sroa,early-cse,simplifycfg),cgscc(inline,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg)),globaldce,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify)'
def compile_ir(src,out,flags=()):
    setup()
    raw=out+'.raw.bc'
    sh([CXX]+COMMON+['-DVP_SYMBOLIC','-O1','-Xclang','-disable-llvm-passes','-fno-exceptions','-fno-threadsafe-statics','-fno-asynchronous-unwind-tables','-gline-tables-only','-emit-llvm','-c',src,'-o',raw]+SAN+list(flags))
    text=open(src).read()
    hs=re.findall(r'VP_CONTRACT\((\w+)\)',text)
    sh(['opt-18','-passes=internalize,globaldce,'+PASSES,'-internalize-public-api-list='+','.join('vpc_'+h for h in hs),'-inline-threshold=20000',raw,'-o',out])
    os.remove(raw)
    return hs
NSAN=['-fsanitize=address,undefined','-fno-sanitize=vptr,function,alignment,nonnull-attribute,pointer-overflow','-fno-sanitize-recover=all']
import glob
LIBS=['-lprotobuf','-Wl,--start-group']+sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.a'))+['-Wl,--end-group','-licuuc','-licudata','-lpthread']
def compile_native(src,out,flags=(),srcs=(),libs=()):
    setup()
    objs=[]
    def obj(s,extra=()):
        o=out+'.'+s.strip('/').replace('/','_').replace('.cc','.o')
        sh([CXX]+COMMON+['-O1','-gline-tables-only','-ffunction-sections','-fdata-sections','-c',s,'-o',o]+NSAN+list(flags)+list(extra)); return o
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(8) as ex:
        objs=list(ex.map(obj,[src,V+'/vc/vp_native.cc']+[REPO+'/'+s for s in srcs]))
    sh([CXX]+objs+['-Wl,--gc-sections','-o',out]+NSAN+list(libs)+LIBS)
    for o in objs: os.remove(o)
