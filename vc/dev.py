"""dev.py UNIT [contract regex]: proves a unit's contracts in parallel (development helper). T=seconds per contract."""
import sys, json, os, re, time, multiprocessing as mp, concurrent.futures as cf, tempfile
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import build, drive, props, io
def job(bc,h,T):
    log=io.StringIO()
    E=drive.prove(bc,h,log=log,deadline=time.time()+T)
    bad=[o for o in E.obl if o[3] not in('unsat','trivial')]
    s='%-4s %s obl=%d bad=%d rets=%d wall=%.1fs %s %s'%('OK' if not bad and not E.err and E.rets and all(v=='sat' for v in E.covers.values()) else 'FAIL',h,len(E.obl),len(bad),E.rets,E.wall,'err='+E.err if E.err else '',E.covers or '')
    for b in bad[:6]: s+='\n       %s'%(b,)
    if os.environ.get('V'): s+='\n'+log.getvalue()
    if os.environ.get('I'): 
        for k,v in E.invs.items(): s+='\n     %s %s'%(k,v[-1])
    if os.environ.get('M'):
        for f in E.fail[:3]: s+='\n   '+str(f)
    return s,h,E.wall
if __name__=='__main__':
    src=sys.argv[1]; nm=os.path.basename(src)
    u=[u for p in props.PROPS.values() for u in p['units'] if u['src']==nm] or [{}]
    d=tempfile.mkdtemp(prefix='vpdev'); bc=d+'/u.bc'
    t=time.time(); hs=build.compile_ir(build.V+'/units/'+nm,bc,u[0].get('flags',())); print('compile %.1fs'%(time.time()-t),flush=True)
    if len(sys.argv)>2: hs=[h for h in hs if re.fullmatch(sys.argv[2],h)]
    cp=build.V+'/vc/cost.json'; cost=json.load(open(cp)) if os.path.exists(cp) else {}
    hs.sort(key=lambda h:-cost.get(h,0))
    with cf.ProcessPoolExecutor(8,mp_context=mp.get_context('fork')) as pp:
        for f in cf.as_completed([pp.submit(job,bc,h,float(os.environ.get('T','200'))) for h in hs]): 
            s,h,w=f.result(); print(s[:int(os.environ.get('C','3000'))],flush=True); cost[h]=round(w,1)
    json.dump(cost,open(cp,'w'),indent=0,sort_keys=True)
    import shutil; shutil.rmtree(d)
