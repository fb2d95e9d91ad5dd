#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's current tree."""
import sys, os, time, json, re, subprocess, multiprocessing as mp, concurrent.futures as cf, hashlib, shutil, resource
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import build
V=build.V
def load_props():
    import props
    return props.PROPS
def scan_contracts(src):
    text=open(V+'/units/'+src).read()
    for inc in re.findall(r'#include "(\w+\.inc)"',text): text+=open(V+'/units/'+inc).read()
    return re.findall(r'^VP_CONTRACT\((\w+)\)',text,re.M), re.findall(r'^VP_BOUNDED\((\w+)\)',text,re.M)
# ------------------------------------------------------------------ workers
def w_prove(bc,h,mode,budget,k,cap,tscale=1):
    resource.setrlimit(resource.RLIMIT_AS,(14<<30,14<<30))
    import drive
    t=time.time()
    E=drive.prove(bc,h,deadline=time.time()+budget,mode=mode,bmc_k=k,size_cap=cap,tscale=tscale)
    obl=[(o[0],o[1],o[2],o[3],round(o[4],3)) for o in E.obl]
    return dict(h=h,mode=mode,obl=obl,err=E.err,rets=E.rets,covers=E.covers,fail=E.fail,fns=sorted(E.fnset),wall=E.wall,q=E.qstat,invs={f'{k[0]}@{k[1]}':v[-1][:40] for k,v in E.invs.items()},
        loops={f'{k[0]}@{k[1]}':v for k,v in E.loopmode.items()},backends=E.backends,assumed=sorted(E.assumed),cut=E.bmc_cut)
def demangle(names):
    if not names: return []
    r=subprocess.run(['c++filt'],input='\n'.join(names),capture_output=True,text=True)
    return r.stdout.strip().split('\n')
def values_text(model):
    out=[]
    for k,v in model.items():
        if isinstance(v,dict):
            ng=len(v['rows'][0]) if v['rows'] else 1
            out.append('r %s %d %d %s'%(k,v['n'],ng,' '.join('%x'%x for r in v['rows'] for x in r)))
        else: out.append('v %s %d'%(k,v))
    return '\n'.join(out)+'\n'
def replay(runner,h,text,tmp):
    fn='%s/replay.%s.%d.txt'%(tmp,h,os.getpid())
    open(fn,'w').write(text)
    try: r=subprocess.run([runner,'replay',h,fn],capture_output=True,text=True,timeout=90)
    except subprocess.TimeoutExpired: return 3,'does not terminate'
    return r.returncode,r.stdout
def search(runner,h,seed,secs,tmp):
    out='%s/found.%s.%s.txt'%(tmp,h,seed)
    if os.path.exists(out): os.remove(out)
    try: r=subprocess.run([runner,'search',h,str(seed),str(secs),out],capture_output=True,text=True,timeout=secs+200)
    except subprocess.TimeoutExpired: return dict(rc=0,out='timeout',values=None,stats={})
    st={k:int(v) for k,v in re.findall(r'(\w+)=(\d+)',r.stdout.split('stats')[-1])} if 'stats' in r.stdout else {}
    return dict(rc=r.returncode,out=r.stdout,values=open(out).read() if os.path.exists(out) else None,stats=st)
class Check:
    def __init__(self,pid,tier):
        self.pid=pid; self.tier=tier; self.P=load_props()[pid]; self.t0=time.time()
        self.seed=int(os.environ.get('VERIF_SEED','1')); self.B=build.B+'/'+pid
        os.makedirs(self.B,exist_ok=True)
        self.violations=[]; self.known=[]; self.log=[]
    def say(self,*a): print(*a,flush=True)
    def left(self): return self.total-(time.time()-self.t0)
    def run(self):
        quick=self.tier=='quick'
        self.total=820 if quick else 3600*2
        build.setup()
        units=self.P['units']; jobs=[]
        pool=cf.ThreadPoolExecutor(8)
        comp={}
        for u in units:
            src=V+'/units/'+u['src']; nm=u['src'].replace('.cc','').replace('/','_')
            con,bnd=scan_contracts(u['src'])
            only=u.get('only')
            if only: con=[c for c in con if re.fullmatch(only,c)]; bnd=[c for c in bnd if re.fullmatch(only,c)]
            f1=pool.submit(build.compile_ir,src,self.B+'/'+nm+'.bc',tuple(u.get('flags',()))+(() if quick else ('-DVP_THOROUGH',))) if con else None
            f2=pool.submit(build.compile_native,src,self.B+'/'+nm+'.run',u.get('flags',()),u.get('srcs',()),u.get('libs',()))
            jobs.append(dict(u=u,con=con,bnd=bnd,bc=self.B+'/'+nm+'.bc',runner=self.B+'/'+nm+'.run',f1=f1,f2=f2))
        pp=cf.ProcessPoolExecutor(8,mp_context=mp.get_context('fork'),max_tasks_per_child=None)
        budget=self.P.get('budget',500) if quick else 2400
        secs=self.P.get('native_s',4) if quick else self.P.get('native_s',4)*15
        proofs=[]; searches=[]
        try:
            self.broken=[]
            for j in jobs:
                try:
                    if j['f1']: j['f1'].result()
                    j['f2'].result()
                except build.CompileError as e: self.broken.append((j,str(e))); j['con']=[]; j['bnd']=[]
            # longest first, so that the pool drains evenly
            try: cost=json.load(open(V+'/vc/cost.json'))
            except OSError: cost={}
            for c,h,j in sorted([(-cost.get(h,0),h,i) for i,j in enumerate(jobs) for h in j['con']]):
                proofs.append((jobs[j],h,pp.submit(w_prove,jobs[j]['bc'],h,'proof',budget,0,0)))
            sp=cf.ThreadPoolExecutor(4)
            for j in jobs:
                for h in j['con']+j['bnd']:
                    s=secs*(3 if h in j['bnd'] else 1)
                    searches.append((j,h,sp.submit(search,j['runner'],h,self.seed,s,self.B)))
            self.nat={}
            for j,h,f in searches:
                r=f.result(); self.nat[h]=r
                if r['rc'] not in(0,3): raise RuntimeError('native runner failed on %s: rc=%s %s'%(h,r['rc'],r['out'][-500:]))
            for j,h,f in searches:
                r=self.nat[h]
                if r['rc']==3: self.violate(j,h,r['out'].strip().split('\n')[0].replace('violated: ',''),r['values'],'native contract execution',r['out'])
            self.results=[]; end=time.time()+15
            for j,h,f in proofs:
                # a violation shown on the real code decides the check: the remaining proofs are not waited for
                if self.violations and not f.done():
                    try: f.result(timeout=max(0.01,end-time.time()))
                    except cf.TimeoutError: continue
                r=f.result(); self.results.append((j,h,r))
            if self.violations:
                for p in mp.active_children(): p.kill()
            self.judge(pp)
            for j,e in self.broken:
                self.say('  contracts of unit %s do not compile against this tree: %s'%(j['u']['src'],e[-1500:]))
                if not self.violations: self.violate(j,'unit_'+j['u']['src'].replace('.cc',''),'obligations cannot be generated: the contracts do not compile against this tree',None,'compiler',e)
            return self.finish(jobs)
        finally:
            pp.shutdown(wait=False,cancel_futures=True)
    @staticmethod
    def why(r):
        bad=[o for o in r['obl'] if o[3] not in('unsat','trivial')]
        if r['err']: return r['err']
        if bad: return f'{bad[0][0]} ({bad[0][1]} at {bad[0][2][0]}:{bad[0][2][1]}) not proved: {bad[0][3]}'
        if not r['rets']: return 'no path returns (vacuous)'
        v=[k for k,v in r['covers'].items() if v!='sat']
        return 'unreachable cover '+v[0] if v else None
    def models(self,j,h,r,how):
        for f in r['fail'][:8]:
            if f.get('model'):
                t=values_text(f['model']); rc,out=replay(j['runner'],h,t,self.B)
                if rc==3: self.violate(j,h,f['label'],t,how,out,r); return True
        return False
    def judge(self,pp):
        """contracts whose obligations are not all discharged: confirm on the real code, retry, or report"""
        fails=[]
        for j,h,r in self.results:
            w=self.why(r); r['ok']=w is None
            if w: self.say(f'  obligation failed: {h}: {w}'); fails.append((j,h,r))
        if any(v['values'] for v in self.violations): return
        for j,h,r in fails:
            if not self.has(h): self.models(j,h,r,'verifier counterexample')
        if any(v['values'] for v in self.violations): return
        fails=[x for x in fails if not self.has(x[1])]
        if not fails: return
        # unconfirmed: the solvers get more time
        if self.left()>150:
            b=min(400,(self.left()-140)*min(1,8/len(fails)))
            fs=[(j,h,r,pp.submit(w_prove,j['bc'],h,'proof',b,0,0,4)) for j,h,r in fails]
            again=[]
            for j,h,r,f in fs:
                r2=f.result(); w=self.why(r2)
                self.say(f'  second attempt: {h}: {w or "discharged"}')
                for i,x in enumerate(self.results):
                    if x[1]==h: r2['ok']=w is None; self.results[i]=(j,h,r2)
                if w and not self.models(j,h,r2,'verifier counterexample'): again.append((j,h,r2))
            fails=again
        if any(v['values'] for v in self.violations): return
        # bounded unrolling for concrete counterexamples, and a longer native search
        if fails and self.left()>50:
            b=max(10,min(100,self.left()-50))
            with cf.ThreadPoolExecutor(8) as ex:
                fb=[(j,h,r,k,ex.submit(self.bmc,j,h,b,k,cap)) for j,h,r in fails[:4] for k,cap in((3,4),(8,12))]
                n=max(1,6//len(fails))
                fn=[(j,h,r,ex.submit(search,j['runner'],h,1000+self.seed*10+i,min(40,b),self.B)) for i in range(n) for j,h,r in fails[:6]]
                for j,h,r,k,f in fb:
                    res=f.result()
                    if not self.has(h): self.models(j,h,dict(r,fail=res['fail']),'verifier counterexample (loops unrolled %d times)'%k)
                for j,h,r,f in fn:
                    x=f.result()
                    if x['rc']==3 and not self.has(h): self.violate(j,h,x['out'].strip().split('\n')[0].replace('violated: ',''),x['values'],'search after failed obligation',x['out'],r)
        if any(v['values'] for v in self.violations): return
        for j,h,r in fails:
            if not self.has(h): self.violate(j,h,self.why(r),None,'deductive verifier: obligation not discharged',json.dumps(dict(error=r['err'],failed=[o for o in r['obl'] if o[3] not in('unsat','trivial')][:20],invariants=r['invs']),indent=1),r)
    def bmc(self,j,h,b,k,cap):
        try:
            q=subprocess.run([sys.executable,__file__,'--bmc',j['bc'],h,str(b),str(k),str(cap)],capture_output=True,text=True,timeout=b+60)
            return json.loads(q.stdout.strip().split('\n')[-1])
        except Exception: return {'fail':[]}
    def has(self,h): return any(v['h']==h for v in self.violations+self.known)
    def violate(self,j,h,label,values,how,out,r=None):
        if any(v['h']==h for v in self.violations): return
        kf=self.known_match(h,label)
        rec=dict(h=h,label=label,values=values,how=how,out=out,unit=j['u']['src'],
            proof=[dict(obligation=o[0],kind=o[1],at=f'{o[2][0]}:{o[2][1]}',solver=o[3]) for o in r['obl'] if o[3] not in('unsat','trivial')][:20] if r else [])
        if kf: 
            self.known.append(dict(rec,text=kf)); return
        self.violations.append(rec)
    def known_match(self,h,label):
        p=V+'/known_findings.json'
        if not os.path.exists(p): return None
        for e in json.load(open(p))['findings']:
            if e.get('status')=='known' and e['property']==self.pid and e['contract']==h and re.search(e['obligation'],label): return e['what']
        return None
    def finish(self,jobs):
        wall=time.time()-self.t0
        obl=dis=0; fns=set(); st=0.0; be={}; assumed=set(); invs={}; rows=[]; und=[]
        for j,h,r in self.results:
            n=len(r['obl']); d=sum(1 for o in r['obl'] if o[3] in('unsat','trivial'))
            obl+=n; dis+=d; fns|=set(r['fns']); st+=r['q'].get('t',0)+r['q'].get('race_t',0); assumed|=set(r['assumed'])
            for k,v in r['backends'].items(): be[k]=be.get(k,0)+v
            be['z3-api']=be.get('z3-api',0)+r['q'].get('n',0)
            for k,v in r['loops'].items(): invs[k]=v
            rows.append(dict(contract=h,unit=j['u']['src'],ok=r['ok'],obligations=n,discharged=d,by_kind={k:sum(1 for o in r['obl'] if o[1]==k) for k in set(o[1] for o in r['obl'])},paths_to_return=r['rets'],covers=r['covers'],wall_s=round(r['wall'],1),error=r['err'],loops=r['loops']))
            if not r['ok']: und.append(h)
        bounded=[dict(contract=h,runs=r['stats'].get('runs',0),discarded=r['stats'].get('discards',0)) for j in jobs for h in j['bnd'] for r in [self.nat.get(h)] if r]
        dead=[h for j in jobs for h in j['bnd']+j['con'] if self.nat.get(h) and self.nat[h]['stats'].get('runs',0)<3 and self.nat[h]['rc']==0]
        if dead: self.say('error: contracts whose executable form met its precondition fewer than 3 times:',dead)
        con=[h for j in jobs for h in j['con']]
        ev=dict(property=self.pid,tier=self.tier,seed=self.seed,level=self.P['level'],
            coverage=dict(obligations=obl,discharged=dis,
                checker_cmd=f'python3-vt vc/check.py {self.pid} {self.tier}',
                trusted_base=['clang 18 front end and the IR passes in vc/build.py','vc/sym.py verification-condition generator','z3 5.3.2 (API), z3-new, cvc5 1.1.2, z3 4.8.12',"C++ library declarations replaced by /verif/shim (absl status/log subset)"]+self.P.get('trusted',[]),
                functions_under_contract=demangle(sorted(fns))[:400],contracts=rows,contracts_proved=sum(1 for r in rows if r['ok']),
                solver_time_s=round(st,2),queries_by_backend=be,loops=invs,
                bounded_contracts=bounded,bounded_note='bounded contracts are executed natively on generated inputs (ASAN/UBSAN); never counted as proved' if bounded else '',
                native_runs={h:r['stats'].get('runs',0) for h,r in self.nat.items()}),
            wall_s=round(wall,2),assumptions=self.P.get('assumptions',[])+sorted(assumed))
        if self.known: ev['coverage']['known_findings']=[k['text'] for k in self.known]
        os.makedirs(V+'/evidence',exist_ok=True)
        for k in self.known: self.say(f'KNOWN-FINDING: property={self.pid} {k["text"]}')
        rc=0
        for v in self.violations:
            os.makedirs(V+'/evidence/replay',exist_ok=True)
            fn=f'{V}/evidence/replay/{self.pid}_{v["h"]}.json'
            json.dump(dict(property=self.pid,unit=v['unit'],contract=v['h'],failed_obligation=v['label'],found_by=v['how'],undischarged_obligations=v['proof'],values=v['values'],output=v['out'],
                replay_cmd=(f'python3-vt /verif/vc/check.py --replay {fn}' if v['values'] else None)),open(fn,'w'),indent=1)
            self.say(f'contract {v["h"]}: {v["label"]} [{v["how"]}]')
            self.say(f'VIOLATION property={self.pid} replay={fn}'+('' if v['values'] else ' no-failing-input-found')); rc=1
        ev['coverage']['violations']=[dict(contract=v['h'],obligation=v['label'],confirmed=bool(v['values'])) for v in self.violations]
        json.dump(ev,open(f'{V}/evidence/{self.pid}.json','w'),indent=1)
        if dead and not rc: rc=2
        self.say(f'{self.pid} {self.tier}: contracts={len(con)} proved={len(con)-len(und)} obligations={obl} discharged={dis} bounded={len(bounded)} wall={wall:.1f}s exit={rc}')
        return rc
def do_replay(fn):
    d=json.load(open(fn)); build.setup()
    nm=d['unit'].replace('.cc','').replace('/','_')
    u=[u for u in load_props()[d['property']]['units'] if u['src']==d['unit']][0]
    os.makedirs(build.B+'/replay',exist_ok=True); run=build.B+'/replay/'+nm+'.run'
    build.compile_native(V+'/units/'+d['unit'],run,u.get('flags',()),u.get('srcs',()),u.get('libs',()))
    rc,out=replay(run,d['contract'],d['values'],build.B+'/replay'); print(out); return 1 if rc==3 else 0
if __name__=='__main__':
    if sys.argv[1]=='--bmc':
        _,_,bc,h,b,k,cap=sys.argv
        r=w_prove(bc,h,'bmc',float(b),int(k),int(cap)); print(); print(json.dumps(dict(fail=r['fail'],err=r['err']),default=str)); sys.exit(0)
    if sys.argv[1]=='--replay': sys.exit(do_replay(sys.argv[2]))
    try: rc=Check(sys.argv[1],sys.argv[2] if len(sys.argv)>2 else 'quick').run()
    except Exception:
        import traceback; traceback.print_exc(); rc=2
    sys.stdout.flush()
    for p in mp.active_children(): p.kill()
    subprocess.run(['pkill','-KILL','-P',str(os.getpid())],capture_output=True)
    os._exit(rc)
