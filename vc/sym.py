"""Contract verification-condition generator over LLVM IR (see DESIGN.md).

Path-by-path symbolic execution between cut points (function entry, loop
headers).  Loops are handled by invariants: candidate facts (supplied by the
contract or generated from the code) are pruned to an inductive subset
(Houdini); nothing about iteration counts is bounded.  Every obligation
(contract postconditions, bounds, no-UB traps, callee requirements) is a z3
query that must be unsat.
"""
import os, re, sys, time, itertools, os
import z3
from ir import *
sys.setrecursionlimit(20000)

class Unsupported(Exception): pass
class Budget(Exception): pass
class PathEnd(Exception): pass

M64=(1<<64)-1
def isc(x): return isinstance(x,int)
def mask(w): return (1<<w)-1
def sx(x,w): return x-(1<<w) if (x>>(w-1))&1 else x
def bv(x,w):
    return z3.BitVecVal(x,w) if isinstance(x,int) else x
def zb(x):
    return z3.BoolVal(x) if isinstance(x,bool) else x

# ---------------------------------------------------------------- linear forms
class Lin:
    """64-bit linear form const + sum coef*term (mod 2^64)."""
    __slots__=('c','t','_z','k')
    def __init__(s,c,t): s.c=c&M64; s.t=t; s._z=None; s.k=None
    def z(s):
        if s._z is None:
            if not s.t: s._z=s.c
            else:
                r=None
                for i in sorted(s.t):
                    term,co=s.t[i]
                    if co==1: x=term
                    elif co==M64: 
                        if r is not None: r=r-term; continue
                        x=-term
                    else: x=term*z3.BitVecVal(co,64)
                    r=x if r is None else r+x
                if s.c: r=r+z3.BitVecVal(s.c,64)
                s._z=r; LINC[r.get_id()]=(s,r)
        return s._z
    def add(a,b,m=1):
        if not b.t:
            if not a.t: return Lin(a.c+m*b.c,{})
            return Lin(a.c+m*b.c,a.t)
        t=dict(a.t)
        for i,(x,co) in b.t.items():
            o=t.get(i); n=((o[1] if o else 0)+m*co)&M64
            if n: t[i]=(x,n)
            elif o: del t[i]
        return Lin(a.c+m*b.c,t)
    def mul(a,k):
        if k==1: return a
        return Lin(a.c*k,{i:(x,(co*k)&M64) for i,(x,co) in a.t.items() if (co*k)&M64})
    def divby(s,k):
        """(quotient Lin, const remainder) if all coefs divisible (signed) else None"""
        if k==1: return s,0
        t={}
        for i,(x,co) in s.t.items():
            sc=sx(co,64)
            if sc%k: return None
            t[i]=(x,(sc//k)&M64)
        c=sx(s.c,64)
        return Lin(c//k,t),c%k
    @property
    def const(s): return None if s.t else s.c
    def key(s):
        if s.k is None: s.k=(s.c,tuple(sorted((i,co) for i,(x,co) in s.t.items())))
        return s.k
LINC={}
ZERO=Lin(0,{})
def lin(x):
    if isinstance(x,Lin): return x
    if isinstance(x,int): return Lin(x,{})
    i=x.get_id(); r=LINC.get(i)
    if r is not None: return r[0]
    k=x.decl().kind(); r=None
    if k==z3.Z3_OP_BNUM: r=Lin(x.as_long(),{})
    elif k==z3.Z3_OP_BADD:
        r=lin(x.arg(0))
        for j in range(1,x.num_args()): r=r.add(lin(x.arg(j)))
    elif k==z3.Z3_OP_BSUB: r=lin(x.arg(0)).add(lin(x.arg(1)),-1)
    elif k==z3.Z3_OP_BNEG: r=lin(x.arg(0)).mul(-1)
    elif k==z3.Z3_OP_BMUL and x.num_args()==2:
        a,b=x.arg(0),x.arg(1)
        if b.decl().kind()==z3.Z3_OP_BNUM: r=lin(a).mul(b.as_long())
        elif a.decl().kind()==z3.Z3_OP_BNUM: r=lin(b).mul(a.as_long())
    if r is None: r=Lin(0,{i:(x,1)})
    LINC[i]=(r,x)
    return r

# ---------------------------------------------------------------- pointers / objects
class Ptr:
    __slots__=('o','off')
    def __init__(s,o,off): s.o=o; s.off=off
    def __repr__(s): return f"Ptr({s.o.name if s.o else 'null'}+{s.off.z()})"
class FnPtr:
    __slots__=('f',)
    def __init__(s,f): s.f=f
NULL=Ptr(None,ZERO)

class Obj:
    n=0
    __slots__=('id','name','size','align','kind','region','stride','gran','init','base','ro','count','heap')
    def __init__(s,name,size,align=16):
        Obj.n+=1; s.id=Obj.n; s.name=name; s.size=lin(size); s.align=align; s.region=None; s.stride=None; s.gran=None; s.init=None; s.base=None; s.ro=False; s.count=None; s.heap=False
class CellS:
    """memory state of a const-size object: dict off->(nbytes,val)"""
    __slots__=('cells','dflt','alive')
    def __init__(s,cells,dflt,alive=True): s.cells=cells; s.dflt=dflt; s.alive=alive
    def copy(s): return CellS(dict(s.cells),s.dflt,s.alive)
class ArrS:
    """memory state of an array object: stride, granules {(c,w)}, contents per granule: chain"""
    __slots__=('stride','gran','ch','alive','name','dflt')
    def __init__(s,stride,gran,ch,name,dflt,alive=True): s.stride=stride; s.gran=gran; s.ch=ch; s.alive=alive; s.name=name; s.dflt=dflt
    def copy(s): return ArrS(s.stride,s.gran,dict(s.ch),s.name,s.dflt,s.alive)

class Base:
    __slots__=('uf','w','quant','name','id','memo','region','bias','k')
    def __init__(s,name,w):
        s.name=name; s.w=w; s.uf=z3.Function(name,z3.BitVecSort(64),z3.BitVecSort(8*w)); s.quant=[]; s.memo={}; s.region=None; s.bias=None
        BASES[s.uf.get_id()]=s
BASES={}
class Upd:
    __slots__=('prev','kind','a','b','c','d','memo','w')
    def __init__(s,prev,kind,a,b=None,c=None,d=None): s.prev=prev; s.kind=kind; s.a=a; s.b=b; s.c=c; s.d=d; s.memo={}; s.w=prev.w
class Const:
    __slots__=('val','w','memo')
    def __init__(s,val,w): s.val=val; s.w=w; s.memo={}

def ite(c,a,b,w):
    if c is True: return a
    if c is False: return b
    if isinstance(a,(Ptr,FnPtr)) or isinstance(b,(Ptr,FnPtr)):
        if isinstance(a,Ptr) and isinstance(b,Ptr) and a.o is b.o:
            return Ptr(a.o,lin(ite(c,a.off.z(),b.off.z(),64)))
        raise Unsupported('ite of pointers')
    if w==1:
        if isinstance(a,bool) and isinstance(b,bool):
            if a==b: return a
            return c if a else z3.Not(c)
        return z3.If(c,zb(a),zb(b))
    if isinstance(a,int) and isinstance(b,int) and a==b: return a
    if not isinstance(a,int) and not isinstance(b,int) and a.eq(b): return a
    return z3.If(c,bv(a,w),bv(b,w))

def aread(ch,t):
    """read chain ch at index t (Lin)"""
    while True:
        if isinstance(ch,Const): return ch.val
        k=t.key(); r=ch.memo.get(k)
        if r is not None: return r[0]
        if isinstance(ch,Base):
            r=ch.uf(bv(t.z(),64))
            if ch.bias is not None: r=Lin(0,{}).add(lin(z3.ZeroExt(64-ch.k,r))).add(ch.bias).z()
            ch.memo[k]=(r,t); return r
        if ch.kind=='store':
            d=t.add(ch.a,-1)
            if d.const==0: return ch.b
            if d.const is not None: ch=ch.prev; continue
            r=ite(bv(t.z(),64)==bv(ch.a.z(),64),ch.b,aread(ch.prev,t),8*ch.w)
        else:
            lo,cnt=ch.a,ch.b
            rel=t.add(lo,-1)
            if rel.const is not None and cnt.const is not None: inside=rel.c<cnt.c
            else: inside=z3.ULT(bv(rel.z(),64),bv(cnt.z(),64))
            if inside is False: ch=ch.prev; continue
            if ch.kind=='copy': v=aread(ch.c,rel.add(ch.d))
            else: v=ch.c
            if inside is True: return v
            r=ite(inside,v,aread(ch.prev,t),8*ch.w)
        ch.memo[k]=(r,t)
        return r

def chain_bases(ch,acc):
    while ch is not None:
        if isinstance(ch,Base): acc.add(ch); return
        if isinstance(ch,Const): return
        if ch.kind=='copy': chain_bases(ch.c,acc)
        ch=ch.prev

# ---------------------------------------------------------------- state
class Frame:
    __slots__=('fn','env','blk','ip','prev','ret','allocas')
    def copy(s):
        f=Frame(); f.fn=s.fn; f.env=dict(s.env); f.blk=s.blk; f.ip=s.ip; f.prev=s.prev; f.ret=s.ret; f.allocas=s.allocas; return f
class State:
    __slots__=('fr','mem','facts','cands','occ','opts','writes','trace','unr','decided')
    def __init__(s): s.fr=[]; s.mem={}; s.facts=(); s.cands=(); s.occ={}; s.opts={}; s.writes=None; s.trace=(); s.unr={}; s.decided=0
    def copy(s):
        t=State(); t.fr=[f.copy() for f in s.fr]; t.mem=dict(s.mem); t.facts=s.facts; t.cands=s.cands; t.occ=dict(s.occ); t.opts=s.opts; t.writes=s.writes; t.trace=s.trace; t.unr=dict(s.unr); t.decided=s.decided
        return t
    def add(s,f):
        if f is True or f is None: return
        if isinstance(f,bool): f=z3.BoolVal(f)
        if z3.is_and(f):
            for i in range(f.num_args()): s.add(f.arg(i))
            return
        s.facts=s.facts+(f,)

SOLVERS=[('z3-new',['z3-new','-smt2']),('cvc5-int',['cvc5','--lang=smt2','--no-produce-models','-q','--solve-bv-as-int=sum']),('cvc5',['cvc5','--lang=smt2','--no-produce-models','-q']),('z3-4.8',['z3','-smt2'])]
INTOP=re.compile(r'\b(bv(?:s|u)(?:div|rem)|bvsmod)_i\b')
def race(text,timeout):
    """run the query in separate solver processes; first definite answer wins"""
    import subprocess,tempfile,signal
    fd,fn=tempfile.mkstemp(suffix='.smt2',prefix='vpq'); os.close(fd)
    text=('(set-logic QF_UFBV)\n' if 'fp.' not in text and 'FloatingPoint' not in text else '(set-logic ALL)\n')+text+'\n(check-sat)\n'
    std=INTOP.sub(r'\1',text); fz=fn
    open(fn,'w').write(std)
    if std!=text:  # z3 knows the variants for a divisor known to be non-zero, and is faster on them
        fz=fn+'.z3.smt2'; open(fz,'w').write(text)
    ps=[]
    try:
        for nm,c in SOLVERS:
            try: ps.append((nm,subprocess.Popen(c+[fz if 'z3' in c[0] else fn],stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True)))
            except OSError: pass
        end=time.time()+timeout; live=list(ps)
        while live and time.time()<end:
            for nm,p in list(live):
                if p.poll() is not None:
                    live.remove((nm,p)); o=p.stdout.read().strip().splitlines()
                    if o and o[-1] in('sat','unsat') and not any('error' in l for l in o): return o[-1],nm
            time.sleep(0.02)
        if os.environ.get('VPKEEP') and not live: import shutil; shutil.copy(fn,'/tmp/keep_%d.smt2'%int(time.time()*1000))
        return 'unknown',None
    finally:
        for nm,p in ps:
            if p.poll() is None: p.kill()
            p.wait()
        os.unlink(fn)
        if fz!=fn: os.unlink(fz)
class Abstract:
    """replaces products, quotients and remainders of two non-constants by uninterpreted functions (weaker facts: only 'unsat' carries over)"""
    NL={z3.Z3_OP_BMUL:'mul',z3.Z3_OP_BUDIV:'udiv',z3.Z3_OP_BSDIV:'sdiv',z3.Z3_OP_BUREM:'urem',z3.Z3_OP_BSREM:'srem',z3.Z3_OP_BSMOD:'smod',
        z3.Z3_OP_BUDIV_I:'udiv',z3.Z3_OP_BSDIV_I:'sdiv',z3.Z3_OP_BUREM_I:'urem',z3.Z3_OP_BSREM_I:'srem'}
    def __init__(s,fponly=False):
        s.c={}; s.fn={}; s.fponly=fponly; s.ax={}
        if fponly: s.NL={}
    def __call__(s,e):
        st=[e]
        while st:
            x=st[-1]; i=x.get_id()
            if i in s.c: st.pop(); continue
            if z3.is_quantifier(x) or x.num_args()==0: s.c[i]=(x,x,False); st.pop(); continue
            ch=x.children(); w=[y for y in ch if y.get_id() not in s.c]
            if w: st.extend(w); continue
            st.pop()
            r=[s.c[y.get_id()] for y in ch]; nl=any(t[2] for t in r)
            if s.fponly and (z3.is_bool(x) or z3.is_bv(x)) and any(z3.is_fp(y) for y in ch):
                s.c[i]=(x,z3.FreshConst(x.sort(),'fpabs'),True); continue
            k=s.NL.get(x.decl().kind())
            if k and sum(1 for y in ch if not z3.is_bv_value(y))>=2:
                a=[t[1] for t in r]
                if k=='mul': a.sort(key=lambda t:t.get_id())
                v=a[0]
                for y in a[1:]:
                    key=(k,v.size())
                    if key not in s.fn: s.fn[key]=z3.Function('nl_%s_%d'%key,z3.BitVecSort(v.size()),z3.BitVecSort(v.size()),z3.BitVecSort(v.size()))
                    v2=v; v=s.fn[key](v,y)
                    if k in('srem','urem') and v.get_id() not in s.ax: s.ax[v.get_id()]=s.theorems(k,v2,y,v)
                s.c[i]=(x,v,True)
            elif nl: s.c[i]=(x,x.decl()(*[t[1] for t in r]),True)
            else: s.c[i]=(x,x,False)
        t=s.c[e.get_id()]
        return t[1],t[2]
    def theorems(s,k,x,y,r):
        # facts about remainders the uninterpreted functions keep
        if k=='urem': return z3.Implies(y!=0,z3.And(z3.ULT(r,y),z3.Implies(z3.ULT(x,y),r==x)))
        mn=z3.BitVecVal(1<<(y.size()-1),y.size())
        return z3.Implies(y!=0,z3.And(z3.Implies(x>=0,r>=0),z3.Implies(x<=0,r<=0),z3.Implies(x==y,r==0),
            z3.Implies(y>0,z3.And(-y<r,r<y,z3.Implies(z3.And(-y<x,x<y),r==x))),
            z3.Implies(z3.And(y<0,y!=mn),z3.And(y<r,r<-y,z3.Implies(z3.And(y<x,x<-y),r==x))),
            z3.Implies(z3.And(y==mn,x!=mn),r==x)))
class Quant:
    __slots__=('arity','base','fn','desc','done')
    def __init__(s,arity,base,fn,desc=''): s.arity=arity; s.base=base; s.fn=fn; s.desc=desc

class Insts:
    """incremental instantiation of quantified facts and spec-function unfolding"""
    def __init__(s,E): s.E=E; s.reads={}; s.by={}; s.apps=set(); s.done=set()
    def add(s,f,lg):
        out=[]; todo=[f]; lvl=0
        while todo and lvl<6:
            nr=[]; na=[]
            for g in todo:
                r,a=s.E.scan(g)
                for k,v in r.items():
                    if k not in s.reads:
                        s.reads[k]=v; nr.append(v); lg.append(('r',k,v[0]))
                for k,v in a.items():
                    if k not in s.apps: s.apps.add(k); lg.append(('a',k)); na.append(v)
            todo=[]
            for (b,idx,x) in nr:
                l=s.by.setdefault(id(b),[])
                for q in b.quant:
                    if q.arity==1:
                        g=q.fn(idx)
                        if g is not True: todo.append(g)
                    else:
                        for j in l:
                            for (u,v) in((idx,j),(j,idx)):
                                g=q.fn(u,v)
                                if g is not True: todo.append(g)
                l.append(idx)
            if lvl<s.E.fuel:
                for a in na:
                    g=s.E.unfold(a)
                    if g is not None: todo.append(g)
            todo=[zb(x) for x in todo]
            out+=todo; lvl+=1
        return out
    def undo(s,lg):
        for e in reversed(lg):
            if e[0]=='r': del s.reads[e[1]]; s.by[id(e[2])].pop()
            else: s.apps.discard(e[1])

class Engine:
    fuel=2
    def __init__(self,mod,harness,mode='proof',bmc_k=40,size_cap=None,deadline=None,log=None,seed=1,obl_timeout=60,tscale=1):
        self.mod=mod; self.h=harness; self.mode=mode; self.k=bmc_k; self.size_cap=size_cap
        self.deadline=deadline; self.logf=log
        self.obl=[]            # records
        self.fail=[]           # (record, state, goal)
        self.fresh=itertools.count()
        self.nd={}             # name -> list of z3 terms / ('region',...)
        self.check=True
        self.globobj={}
        self.incs=z3.Solver(); self.incstack=[]
        self.qstat={'n':0,'t':0.0,'unk':0}
        self.specfn={}         # uf id -> (Func, retw, ptrinfo)
        self.specapp={}        # app ast id -> (app, info)
        self.scan_memo={}
        self.covers={}
        self.rets=0
        self.tscale=tscale; self.feas_to=400*tscale; self.obl_to=int(obl_timeout*1000*min(tscale,2))
        self.purecache={}
        self.fnset=set()
        self.loopset=set(); self.invs={}
        self.trapobl={}
        self.keep=[]
        self.assumed=set()
        self.solver_ver=z3.get_version_string()
        self.maxstates=200000; self.nstates=0
        self.failed_labels=set()
        self.loopmode={}
        self.dry=0
        self.allobjs=[]; self.cmps=[]; self.backends={}
        self.inst=Insts(self); self.ncache=[]
    def log(self,*a):
        if self.logf: print(*a,file=self.logf,flush=True)
    def tick(self):
        if self.deadline and time.time()>self.deadline: raise Budget('time')
    def name(self,p): return f"{p}!{next(self.fresh)}"
    def sym(self,p,w):
        if w==1: return z3.Bool(self.name(p))
        return z3.BitVec(self.name(p),w)
    # ------------------------------------------------------------ solver
    def scan(self,f):
        """-> (base reads {(base,idxterm)}, spec apps) in formula f, memoised; linear DAG walk"""
        i=f.get_id(); r=self.scan_memo.get(i)
        if r is not None: return r[0],r[1]
        reads={}; apps={}
        seen=set(); st=[f]
        while st:
            x=st.pop(); j=x.get_id()
            if j in seen: continue
            seen.add(j)
            r=self.scan_memo.get(j)
            if r is not None and x is not f:
                reads.update(r[0]); apps.update(r[1]); continue
            n=x.num_args()
            if n:
                d=x.decl()
                if d.kind()==z3.Z3_OP_UNINTERPRETED:
                    b=BASES.get(d.get_id())
                    if b is not None: reads[j]=(b,x.arg(0),x)
                    elif d.get_id() in self.specfn: apps[j]=x
                st.extend(x.children())
        self.scan_memo[i]=(reads,apps,f)
        return reads,apps
    def expand(self,fs):
        """instances of quantified facts + spec unfoldings relevant to formulas fs"""
        I=Insts(self); out=[]
        for f in fs: out+=I.add(f,[])
        return out
    def unfold(self,app):
        info=self.specapp.get(app.get_id())
        if info is None: return None
        if 'eq' not in info:
            info['eq']=None
            v=self.pure(info['fn'],info['args'],info['state'],info['w'])
            if info['w']==1: info['eq']=(app==zb(v))
            else: info['eq']=(app==bv(v,info['w']))
        return info['eq']
    def feasible(self,facts,extra=None,timeout=None):
        """False only if proven unsat"""
        self.tick()
        fs=facts if extra is None else facts+(extra,)
        r=self.incquery(fs,timeout or self.feas_to)
        return r!=z3.unsat
    def resetinc(self):
        if self.incstack: self.incs.pop(len(self.incstack))
        self.incstack=[]; self.inclog=[]; self.inst=Insts(self)
    def incquery(self,facts,timeout):
        t0=time.time()
        s=self.incs; st=self.incstack; n=0
        while n<len(st) and n<len(facts) and st[n] is facts[n]: n+=1
        if len(st)>n:
            s.pop(len(st)-n)
            while len(st)>n: st.pop(); self.inst.undo(self.inclog.pop())
        for i in range(n,len(facts)):
            f=facts[i]; lg=[]
            gs=self.inst.add(f,lg)
            s.push(); st.append(f); self.inclog.append(lg)
            # opt nofp: floating-point conditions become unconstrained booleans (weaker facts)
            if self.nofp: f=self.nofp(f)[0]; gs=[self.nofp(g)[0] for g in gs]
            s.add(f)
            for g in gs: s.add(g)
        s.set('timeout',timeout)
        r=s.check()
        self.qstat['n']+=1; self.qstat['t']+=time.time()-t0
        if r==z3.unknown: self.qstat['unk']+=1
        return r
    inclog=[]; batch_to=4000; nofp=None
    abstract=Abstract()
    def prove(self,facts,goal,timeout=None):
        """'unsat'(proved) / 'sat' / 'unknown', model"""
        self.tick()
        if goal is True: return 'unsat',None
        neg=z3.Not(zb(goal)); t0=time.time()
        r,m=self.decide(tuple(facts)+(neg,),timeout or self.obl_to)
        self.qstat['t2']=self.qstat.get('t2',0)+time.time()-t0
        return r,m
    def decide(self,facts,timeout,quick=300):
        quick*=self.tscale
        """full-strength decision: incremental solver, then a fresh solver, then a portfolio of processes"""
        r=self.incquery(facts,quick)
        if r==z3.unsat: return 'unsat',None
        if r==z3.sat: return 'sat',self.incs.model()
        self.tick()
        asr=list(self.incs.assertions())
        ab=[self.abstract(f) for f in asr]
        if any(b for _,b in ab):
            s=z3.Solver(); s.set('timeout',min(1500*self.tscale,timeout or 1500*self.tscale)); s.add(*[f for f,_ in ab]); s.add(*self.abstract.ax.values())
            self.qstat['abs']=self.qstat.get('abs',0)+1
            if s.check()==z3.unsat: self.qstat['abs_ok']=self.qstat.get('abs_ok',0)+1; return 'unsat',None
        s=z3.Solver(); s.set('timeout',min(1500*self.tscale,timeout or 1500*self.tscale)); s.add(*asr)
        r=s.check(); self.qstat['fresh']=self.qstat.get('fresh',0)+1
        if r==z3.unsat: return 'unsat',None
        if r==z3.sat: return 'sat',s.model()
        self.tick()
        if not timeout: return 'unknown',None
        if self.deadline: timeout=min(timeout,max(1000,int(1000*(self.deadline-time.time()))))
        self.qstat['race']=self.qstat.get('race',0)+1
        t1=time.time()
        s2=z3.Solver(); s2.add(*asr); r,who=race(s2.sexpr(),timeout/1000)
        self.qstat['race_t']=self.qstat.get('race_t',0)+time.time()-t1
        if who: self.backends[who]=self.backends.get(who,0)+1
        if r=='sat':
            s.set('timeout',10000)
            if s.check()==z3.sat: return 'sat',s.model()
            return 'sat',None
        return r,None
    def slice(self,facts,goal): return facts
    # ------------------------------------------------------------ obligations
    def obligation(self,st,cond,label,kind,loc):
        if cond is True:
            if not self.dry: self.obl.append((label,kind,loc,'trivial',0.0))
            return True
        if self.dry:
            st.add(zb(cond)); return True
        t0=time.time()
        r,m=self.prove(st.facts,cond)
        dt=time.time()-t0
        self.obl.append((label,kind,loc,r,dt))
        if r!='unsat':
            self.log('  FAIL',label,kind,loc,r,'%.1fs'%dt)
            self.fail.append({'label':label,'kind':kind,'loc':loc,'res':r,'model':self.extract(m,st) if m is not None else None})
            self.failed_labels.add(label)
        st.add(zb(cond))
        if cond is False or (r=='sat' and not self.feasible(st.facts)): raise PathEnd()
        return r=='unsat'
    def extract(self,m,st):
        """concrete values for the nondeterministic inputs of this path from model m"""
        out={}
        def ev(t,w):
            if isinstance(t,(int,bool)): return int(t)
            v=m.eval(zb(t) if z3.is_bool(t) else t,model_completion=True)
            if z3.is_bool(v): return 1 if z3.is_true(v) else 0
            return v.as_long() if z3.is_bv_value(v) else 0
        for nm,items in self.ndlist(st):
            if items[0]=='v': out[nm]=ev(items[1],items[2])
            else:
                _,obj,cnt,stride,gran=items
                n=ev(cnt,64); cap=min(n,256); rows=[]
                for i in range(cap):
                    row=[]
                    for (c,w,k,base) in gran:
                        row.append(ev(aread(base,Lin(i,{})),8*w))
                    rows.append(row)
                out[nm]={'n':n,'rows':rows}
        return out
    def ndlist(self,st):
        return list(st.occ.get('__order',()))
    # ------------------------------------------------------------ values
    def toint(self,v,w,st):
        """int-typed view of a value (Ptr -> address)"""
        if isinstance(v,Ptr):
            if v.o is None: return v.off.z()
            return self.baseof(v.o,st).add(v.off).z()
        if isinstance(v,FnPtr):
            return 0x10000+16*(abs(hash(v.f.name))%100000)
        return v
    def baseof(self,o,st):
        if o.base is None:
            o.base=z3.BitVec(self.name('addr_'+o.name),64)
            self.keep.append(o.base)
        b=o.base
        fs=[b!=0, z3.ULT(b,z3.BitVecVal(1<<47,64)), z3.ULT(b,b+bv(o.size.z(),64)+1)]
        al=o.align
        if al>1: fs.append((b&z3.BitVecVal(al-1,64))==0)
        for f in fs:
            if not any(f.eq(x) for x in st.facts): st.add(f)
        return lin(b)
    def toptr(self,v):
        if isinstance(v,(Ptr,FnPtr)): return v
        if isinstance(v,int):
            return Ptr(None,lin(v))
        l=lin(v)
        # address = base + off ?
        for i,(t,co) in l.t.items():
            if co==1:
                o=self.objbybase(t)
                if o is not None:
                    return Ptr(o,l.add(Lin(0,{i:(t,1)}),-1))
        raise Unsupported('int to pointer')
    def objbybase(self,t):
        for o in self.allobjs:
            if o.base is not None and o.base.eq(t): return o
        return None
    def const(self,o,st):
        k=o[0]
        if k=='i': 
            return bool(o[2]) if o[1]==1 else o[2]
        if k=='f': return o[2]
        if k=='null': return NULL
        if k=='undef': return self.undef(o[1])
        if k=='zero': return self.zero(o[1])
        if k=='g': return Ptr(self.gobj(o[1],st),Lin(o[2],{}))
        if k=='fn': return FnPtr(o[1])
        if k=='cegep':
            b=self.const(o[1],st); c,ts=o[2]
            assert not ts
            return Ptr(b.o,b.off.add(Lin(c,{})))
        if k=='agg': return [self.const(x,st) for x in o[2]]
        if k=='bytes': return [x for x in o[2]]
        if k=='ce':
            op,ty,ops=o[1],o[2],o[3]
            vs=[self.const(x,st) for x in ops]
            if op=='ptrtoint': return self.toint(vs[0],64,st)
            if op=='inttoptr': return self.toptr(vs[0])
            if op in('bitcast','addrspacecast'): return vs[0]
            if op=='sub': return self.lsub(self.toint(vs[0],64,st),self.toint(vs[1],64,st))
            if op=='add': return lin(vs[0]).add(lin(vs[1])).z()
            if op=='trunc': return vs[0]
        raise Unsupported('const %r'%(o[:2],))
    def lsub(self,a,b): return lin(a).add(lin(b),-1).z()
    def undef(self,t):
        if t.k=='int': return self.sym('undef',t.w)
        if t.k=='float': return self.sym('undef',t.w)
        if t.k=='ptr': return NULL
        if t.k=='struct': return [self.undef(x) for x in t.els]
        if t.k in('array','vec'): return [self.undef(t.el) for _ in range(t.n)]
        raise Unsupported('undef '+t.k)
    def zero(self,t):
        if t.k=='int': return False if t.w==1 else 0
        if t.k=='float': return 0
        if t.k=='ptr': return NULL
        if t.k=='struct': return [self.zero(x) for x in t.els]
        if t.k in('array','vec'): return [self.zero(t.el) for _ in range(t.n)]
        raise Unsupported('zero '+t.k)
    def gobj(self,G,st):
        o=self.globobj.get(G.name)
        if o is None:
            o=Obj('@'+G.name,G.ty.size,16); o.init=G; o.ro=G.const
            self.globobj[G.name]=o; self.allobjs.append(o)
        if o.id not in st.mem:
            cells={}
            ini=GlInit(G.ptr)
            if ini:
                self.flat(cells,0,G.ty,self.mod.operand(ini),st)
                st.mem[o.id]=CellS(cells,'zero')
            else:
                if G.name=='__libc_single_threaded': cells[0]=(1,1)
                st.mem[o.id]=CellS(cells,'sym')
        return o
    def flat(self,cells,off,t,c,st):
        if c[0]=='zero': return
        if c[0]=='undef': return
        if c[0]=='bytes':
            for i,b in enumerate(c[2]): 
                cells[off+i]=(1,b)
            return
        if t.k=='struct':
            for i,e in enumerate(t.els): self.flat(cells,off+t.offs[i],e,c[2][i],st)
        elif t.k in('array','vec'):
            for i in range(t.n): self.flat(cells,off+i*t.el.size,t.el,c[2][i],st)
        else:
            v=self.const(c,st)
            if isinstance(v,bool): v=int(v)
            cells[off]=(t.store,v)
    def val(self,o,st):
        if o[0]=='v':
            return st.fr[-1].env[o[1]]
        return self.const(o,st)
    # ------------------------------------------------------------ memory
    def newobj(self,st,name,size,align=16,dflt='undef',heap=False):
        o=Obj(name,size,align); o.heap=heap; self.allobjs.append(o)
        if o.size.const is not None and o.size.c<=65536:
            st.mem[o.id]=CellS({},dflt)
        else:
            st.mem[o.id]=ArrS(None,None,{},name,dflt)
        return o
    def inb(self,st,o,S,off,w,loc,what):
        """bounds obligation for access of w bytes at Lin offset in object o; """
        c=off.const
        if o.size.const is not None and c is not None:
            ok=c+w<=o.size.c
            if not ok: self.obligation(st,False,f'in-bounds {what} of {o.name}','mem',loc)
            else: self.obligation(st,True,'bounds','mem',loc)
            return
        if isinstance(S,ArrS) and S.stride:
            q=off.divby(S.stride); n=o.size.divby(S.stride)
            if q is not None and n is not None and n[1]==0 and q[1]+w<=S.stride:
                self.obligation(st,z3.ULT(bv(q[0].z(),64),bv(n[0].z(),64)),f'in-bounds {what} of {o.name}','mem',loc); return
            if q is not None and n is not None and n[1]==0 and q[1]==0 and w%S.stride==0:
                m=w//S.stride
                qz=bv(q[0].z(),64); nz=bv(n[0].z(),64)
                self.obligation(st,z3.And(z3.ULT(qz,nz),z3.ULE(z3.BitVecVal(m,64),nz-qz)),f'in-bounds {what} of {o.name}','mem',loc); return
        oz=bv(off.z(),64); sz=bv(o.size.z(),64)
        self.obligation(st,z3.And(z3.ULE(oz,sz),z3.UGE(sz-oz,z3.BitVecVal(w,64))),f'in-bounds {what} of {o.name}','mem',loc)
    def mobj(self,st,p,loc,what):
        if isinstance(p,FnPtr): raise Unsupported('data access to function')
        p=self.toptr(p)
        if p.o is None:
            self.obligation(st,False,f'{what} through null/invalid pointer','mem',loc); raise PathEnd()
        S=st.mem.get(p.o.id)
        if S is None:
            if p.o.init is not None: self.gobj(p.o.init,st); S=st.mem[p.o.id]
            else: raise Unsupported('dead object')
        if not S.alive:
            self.obligation(st,False,f'{what} after free of {p.o.name}','mem',loc); raise PathEnd()
        return p,S
    def load(self,st,p,t,loc,checked=True):
        if t.k in('struct',):
            return [self.load(st,Ptr(p.o,p.off.add(Lin(t.offs[i],{}))),e,loc) for i,e in enumerate(t.els)]
        if t.k in('array','vec'):
            return [self.load(st,Ptr(p.o,p.off.add(Lin(i*t.el.size,{}))),t.el,loc) for i in range(t.n)]
        p,S=self.mobj(st,p,loc,'load')
        w=t.store
        if checked: self.inb(st,p.o,S,p.off,w,loc,'load')
        v=self.rd(st,p,S,w,t)
        return self.conv(v,t,st)
    def conv(self,v,t,st):
        if t.k=='int':
            if isinstance(v,(Ptr,FnPtr)): 
                if isinstance(v,Ptr) and v.o is None: return v.off.z()
                return v
            if t.w==1:
                return bool(v&1) if isc(v) else z3.Extract(0,0,v)==1
            if t.w<8*t.store:
                return v&mask(t.w) if isc(v) else z3.Extract(t.w-1,0,v)
            return v
        if t.k=='float': return self.toint(v,t.w,st)
        if t.k=='ptr':
            return self.toptr(v)
        raise Unsupported('load type '+t.k)
    def rd(self,st,p,S,w,t=None):
        if isinstance(S,CellS):
            c=p.off.const
            if c is None:
                S=self.toarr(st,p.o,S,w)
            else: return self.rdcell(st,p.o,S,c,w,t)
        return self.rdarr(st,p.o,S,p.off,w)
    def rdcell(self,st,o,S,c,w,t=None):
        e=S.cells.get(c)
        if e is not None and e[0]==w: return e[1]
        # compose bytes
        parts=[]; i=c; end=c+w
        ov=sorted((k,n,v) for k,(n,v) in S.cells.items() if k<end and k+n>c)
        if not ov:
            if S.dflt=='zero': return 0
            if S.dflt=='undef' or S.dflt=='sym':
                if t is not None and t.k=='ptr': 
                    v=NULL if S.dflt=='undef' else None
                    if v is None: raise Unsupported('pointer from symbolic memory '+o.name)
                    return v
                v=self.sym('uninit_'+o.name,8*w)
                T=S.copy(); T.cells[c]=(w,v); st.mem[o.id]=T
                return v
        res=None; reslen=0
        def app(v,n):
            nonlocal res,reslen
            if res is None: res=v
            elif isc(res) and isc(v): res=res|(v<<(8*reslen))
            else: res=z3.Concat(bv(v,8*n),bv(res,8*reslen))
            reslen+=n
        for (k,n,v) in ov:
            if i<k: 
                g=k-i; app(0 if S.dflt=='zero' else self.sym('uninit_'+o.name,8*g),g); i=k
            a=i-k; b=min(n,end-k)
            v=self.toint(v,64,st)
            if isc(v): x=(v>>(8*a))&mask(8*(b-a))
            else: x=z3.Extract(8*b-1,8*a,v) if (a,b)!=(0,n) else v
            app(x,b-a); i=k+b
        if i<end: app(0 if S.dflt=='zero' else self.sym('uninit_'+o.name,8*(end-i)),end-i)
        return res
    def toarr(self,st,o,S,w):
        """convert a cell object to array form with stride w"""
        sz=o.size.c
        if sz%w: 
            for w in (4,2,1):
                if sz%w==0: break
        n=sz//w
        if n>4096: raise Unsupported('large cell object to array')
        ch=Const(0,w) if S.dflt=='zero' else Base(self.name('arr_'+o.name),w)
        A=CellS(dict(S.cells),S.dflt)
        for i in range(n):
            if any(k<(i+1)*w and k+nn>i*w for k,(nn,_) in S.cells.items()):
                v=self.toint(self.rdcell(st,o,A,i*w,w),64,st)
                ch=Upd(ch,'store',Lin(i,{}),v)
        R=ArrS(w,((0,w),),{(0,w):ch},o.name,S.dflt,S.alive)
        st.mem[o.id]=R
        if st.writes is not None: st.writes.add((o.id,'toarr'))
        return R
    def layout(self,st,o,S,w):
        """ensure array object has a layout; first access decides"""
        if S.stride is None:
            T=S.copy(); T.stride=w; T.gran=((0,w),)
            T.ch[(0,w)]=self.dfltchain(o,S.dflt,w)
            st.mem[o.id]=T
            return T
        return S
    def dfltchain(self,o,dflt,w):
        if dflt=='zero': return Const(0,w)
        if isinstance(dflt,tuple): 
            b=dflt[1]; 
            if isc(b): return Const(int.from_bytes(bytes([b])*w,'little'),w)
            return Const(z3.Concat(*([b]*w)) if w>1 else b,w)
        # deterministic name so that all paths share the unknown initial content
        nm=f'mem_{o.name}_{o.id}_{w}'
        b=self.purecache.get(nm)
        if b is None: b=Base(nm,w); self.purecache[nm]=b
        return b
    def split(self,st,o,S,off,w):
        """-> list of (granule (c,gw), idx Lin, byte offset in granule, nbytes) covering the access"""
        s=S.stride
        q=off.divby(s)
        if q is None: return None
        idx,c=q; out=[]; left=w
        while left>0:
            for (gc,gw) in S.gran:
                if gc<=c<gc+gw:
                    n=min(left,gc+gw-c); out.append(((gc,gw),idx,c-gc,n)); break
            else:
                nxt=min([gc for gc,_ in S.gran if gc>c]+[s]); n=min(left,nxt-c); out.append((None,idx,0,n))
            c+=n; left-=n
            if c>=s: c-=s; idx=idx.add(Lin(1,{}))
        return out
    def rdarr(self,st,o,S,off,w):
        S=self.layout(st,o,S,w)
        parts=self.split(st,o,S,off,w)
        if parts is None: return self.rdgen(st,o,S,off,w)
        if len(parts)==1:
            g,idx,a,n=parts[0]
            if g is not None and a==0 and n==g[1]: return aread(S.ch[g],idx)
        vs=[]
        for g,idx,a,n in parts:
            if g is None: vs.append(self.sym('pad',8*n)); continue
            v=aread(S.ch[g],idx)
            if isinstance(v,(Ptr,FnPtr)): raise Unsupported('partial pointer read')
            if not(a==0 and n==g[1]):
                v=(v>>(8*a))&mask(8*n) if isc(v) else z3.Extract(8*(a+n)-1,8*a,v)
            vs.append(bv(v,8*n))
        if len(vs)==1: return vs[0]
        return z3.simplify(z3.Concat(*reversed(vs))) if all(z3.is_bv_value(x) for x in vs) else z3.Concat(*reversed(vs))
    def rdgen(self,st,o,S,off,w):
        """access at an offset that is not stride-linear (single granule layouts)"""
        if len(S.gran)!=1 or S.gran[0]!=(0,S.stride): raise Unsupported('non-linear offset')
        s=S.stride
        if s&(s-1): raise Unsupported('non-linear offset, stride %d'%s)
        sh=s.bit_length()-1
        oz=bv(off.z(),64)
        i0=lin(z3.LShR(oz,z3.BitVecVal(sh,64)) if sh else oz)
        c=oz&z3.BitVecVal(s-1,64) if s>1 else z3.BitVecVal(0,64)
        if w==s:
            if not self.dry or True:
                # alignment must hold; otherwise combine two granules
                lo=bv(aread(S.ch[(0,s)],i0),8*s)
                if s==1: return lo
                hi=bv(aread(S.ch[(0,s)],i0.add(Lin(1,{}))),8*s)
                cc=c*8
                c8=z3.Extract(8*s-1,0,cc) if 8*s<64 else cc
                return z3.If(c==0,lo,z3.LShR(lo,c8)|(hi<<(z3.BitVecVal(8*s,8*s)-c8)))
        if w<s:
            lo=bv(aread(S.ch[(0,s)],i0),8*s)
            c8=z3.Extract(8*s-1,0,c*8) if 8*s<64 else c*8
            return z3.Extract(8*w-1,0,z3.LShR(lo,c8))   # assumes no straddling (aligned narrower access)
        raise Unsupported('non-linear wide access')
    def store(self,st,p,v,t,loc):
        if t.k=='struct':
            for i,e in enumerate(t.els): self.store(st,Ptr(p.o,p.off.add(Lin(t.offs[i],{}))),v[i],e,loc)
            return
        if t.k in('array','vec'):
            for i in range(t.n): self.store(st,Ptr(p.o,p.off.add(Lin(i*t.el.size,{}))),v[i],t.el,loc)
            return
        p,S=self.mobj(st,p,loc,'store')
        if p.o.ro: self.obligation(st,False,f'store to constant {p.o.name}','mem',loc)
        w=t.store
        self.inb(st,p.o,S,p.off,w,loc,'store')
        if isinstance(v,bool): v=int(v)
        elif t.k=='int' and t.w==1: v=z3.If(v,z3.BitVecVal(1,8),z3.BitVecVal(0,8))
        elif t.k=='int' and t.w<8*w and not isc(v) and not isinstance(v,(Ptr,FnPtr)): v=z3.ZeroExt(8*w-t.w,v)
        self.wr(st,p,S,w,v)
    def wr(self,st,p,S,w,v):
        o=p.o
        if isinstance(S,CellS):
            c=p.off.const
            if c is None: S=self.toarr(st,o,S,w)
            else:
                T=S.copy(); self.carve(st,T,c,w); T.cells[c]=(w,v); st.mem[o.id]=T
                if st.writes is not None: st.writes.add((o.id,c,w))
                return
        S=self.layout(st,o,S,w)
        parts=self.split(st,o,S,p.off,w)
        if st.writes is not None: 
            for g in (S.ch if parts is None else [x[0] for x in parts if x[0]]): st.writes.add((o.id,'arr',g))
        T=S.copy()
        if parts is None:
            if len(S.gran)!=1 or w!=S.stride or w&(w-1): raise Unsupported(f'non-linear store {p.off.z()} stride {S.stride} {S.gran} {p.o.name}')
            sh=w.bit_length()-1
            oz=bv(p.off.z(),64)
            if w>1: self.obligation(st,(oz&z3.BitVecVal(w-1,64))==0,f'aligned store to {o.name}','mem',('?',0))
            idx=lin(z3.LShR(oz,z3.BitVecVal(sh,64)) if sh else oz)
            T.ch[(0,w)]=Upd(S.ch[(0,w)],'store',idx,v)
        else:
            pos=0
            for g,idx,a,n in parts:
                if len(parts)==1 and a==0 and n==g[1]: x=v
                else:
                    vi=self.toint(v,64,st)
                    x=(vi>>(8*pos))&mask(8*n) if isc(vi) else z3.Extract(8*(pos+n)-1,8*pos,vi)
                pos+=n
                if g is None: continue
                if not(a==0 and n==g[1]):
                    old=bv(aread(T.ch[g],idx),8*g[1]); xs=[]
                    if a+n<g[1]: xs.append(z3.Extract(8*g[1]-1,8*(a+n),old))
                    xs.append(bv(x,8*n))
                    if a>0: xs.append(z3.Extract(8*a-1,0,old))
                    x=z3.Concat(*xs)
                T.ch[g]=Upd(T.ch[g],'store',idx,x)
        st.mem[o.id]=T
    def carve(self,st,T,c,w):
        """remove [c,c+w) from cells of T (already a private copy)"""
        e=T.cells.get(c)
        if e is not None and e[0]==w: return
        end=c+w
        for k,(n,v) in list(T.cells.items()):
            if k<end and k+n>c:
                del T.cells[k]
                vi=None
                if k<c:
                    vi=self.toint(v,64,st); m=c-k
                    T.cells[k]=(m,vi&mask(8*m) if isc(vi) else z3.Extract(8*m-1,0,vi))
                if k+n>end:
                    vi=self.toint(v,64,st); m=k+n-end; a=end-k
                    T.cells[end]=(m,(vi>>(8*a))&mask(8*m) if isc(vi) else z3.Extract(8*n-1,8*a,vi))
    def memset(self,st,p,b,n,loc):
        n=lin(n)
        if n.const==0: return
        p,S=self.rangecheck(st,p,n,loc,'memset')
        if p is None: return
        if st.writes is not None: st.writes.add((p.o.id,'all'))
        o=p.o
        if isinstance(S,CellS) and p.off.const is not None and n.const is not None:
            T=S.copy(); self.carve(st,T,p.off.c,n.c)
            c=p.off.c; left=n.c
            for w in (8,4,2,1):
                while left>=w and (c%w==0 or w==1):
                    T.cells[c]=(w,int.from_bytes(bytes([b])*w,'little') if isc(b) else (z3.Concat(*([b]*w)) if w>1 else b)); c+=w; left-=w
                    if w!=8 and left>=8 and c%8==0: break
            # finish remaining bytes
            while left>0: T.cells[c]=(1,b); c+=1; left-=1
            st.mem[o.id]=T; return
        if isinstance(S,CellS): S=self.toarr(st,o,S,1 if o.size.c%4 else 4)
        if S.stride is None:
            if p.off.const==0 and o.size.key()==n.key():
                T=S.copy(); T.dflt=('fill',b); st.mem[o.id]=T; return
            # choose a stride from the divisibility of length and offset
            w=8
            while w>1 and (n.divby(w) is None or n.divby(w)[1] or p.off.divby(w) is None or p.off.divby(w)[1]): w//=2
            S=self.layout(st,o,S,w)
        q=p.off.divby(S.stride); m=n.divby(S.stride)
        if q is None or q[1] or m is None or m[1]: raise Unsupported('unaligned memset')
        T=S.copy()
        for g in S.gran:
            val=int.from_bytes(bytes([b])*g[1],'little') if isc(b) else (z3.Concat(*([b]*g[1])) if g[1]>1 else b)
            T.ch[g]=Upd(S.ch[g],'fill',q[0],m[0],val)
        st.mem[o.id]=T
    def rangecheck(self,st,p,n,loc,what):
        n=lin(n)
        p=self.toptr(p)
        if n.const is None:
            z=bv(n.z(),64)
            if p.o is None:
                self.obligation(st,z==0,f'{what} null pointer with zero length','mem',loc); return None,None
        p,S=self.mobj(st,p,loc,what)
        o=p.o
        c=p.off.const
        if o.size.const is not None and c is not None and n.const is not None:
            self.obligation(st,c+n.c<=o.size.c,f'in-bounds {what} of {o.name}','mem',loc); return p,S
        s=(S.stride if isinstance(S,ArrS) else None) or 1
        for s in (s,8,4,1):
            a,b,d=p.off.divby(s),n.divby(s),o.size.divby(s)
            if a and b and d and not a[1] and not b[1] and not d[1]: break
        az,bz,dz=(bv(x[0].z(),64) for x in(a,b,d))
        self.obligation(st,z3.And(z3.ULE(az,dz),z3.ULE(bz,dz-az)),f'in-bounds {what} of {o.name}','mem',loc)
        return p,S
    def memcpy(self,st,d,s,n,loc,move=False):
        n=lin(n)
        if n.const==0: return
        ps,S=self.rangecheck(st,s,n,loc,'copy source')
        if ps is None: return
        pd,D=self.rangecheck(st,d,n,loc,'copy destination')
        if pd is None: return
        if pd.o.ro: self.obligation(st,False,f'store to constant {pd.o.name}','mem',loc)
        if not move and ps.o is pd.o and n.const is None:
            # require disjointness
            a,b=bv(ps.off.z(),64),bv(pd.off.z(),64); nz=bv(n.z(),64)
            self.obligation(st,z3.Or(z3.UGE(a,b+nz),z3.UGE(b,a+nz),nz==0,a==b),'memcpy ranges disjoint','mem',loc)
        if n.const is not None and (n.c<=64 or (isinstance(S,CellS) and isinstance(D,CellS))) and (isinstance(S,CellS) or isinstance(D,CellS) or S.stride):
            # piecewise copy following the source layout
            pcs=[]; off=0
            if isinstance(S,CellS) and ps.off.const is not None:
                b0=ps.off.c
                ks=sorted((max(k,b0),min(k+nn,b0+n.c)) for k,(nn,_) in S.cells.items() if k<b0+n.c and k+nn>b0)
                cur=b0
                for a,b in ks:
                    if cur<a and S.dflt!='undef':
                        while cur<a:
                            w=8
                            while w>a-cur or (cur%w): w//=2
                            pcs.append((cur-b0,w)); cur+=w
                    pcs.append((a-b0,b-a)); cur=b
                if cur<b0+n.c and S.dflt!='undef':
                    while cur<b0+n.c:
                        w=8
                        while w>b0+n.c-cur or (cur%w): w//=2
                        pcs.append((cur-b0,w)); cur+=w
                if S.dflt=='undef' and isinstance(D,CellS) and pd.off.const is not None:
                    T=D.copy(); self.carve(st,T,pd.off.c,n.c); st.mem[pd.o.id]=T; D=T
                    if st.writes is not None: st.writes.add((pd.o.id,pd.off.c,n.c))
            else:
                w=1
                if isinstance(S,ArrS) and S.stride: 
                    w=S.gran[0][1] if len(S.gran)==1 else None
                    if w is None:
                        sp=self.split(st,ps.o,S,ps.off,n.c); o2=0; pcs=[]
                        for g,_,_,k in sp:
                            if g is not None: pcs.append((o2,k))
                            o2+=k
                elif isinstance(D,ArrS) and D.stride: w=D.gran[0][1]
                else: w=8
                if w:
                    while n.c%w: w//=2
                    pcs=[(i,w) for i in range(0,n.c,w)]
            vals=[(i,w,self.rd(st,Ptr(ps.o,ps.off.add(Lin(i,{}))),st.mem[ps.o.id],w)) for i,w in pcs]
            for i,w,v in vals:
                self.wr(st,Ptr(pd.o,pd.off.add(Lin(i,{}))),st.mem[pd.o.id],w,v)
            return
        if st.writes is not None: st.writes.add((pd.o.id,'all'))
        if isinstance(S,CellS): S=self.toarr(st,ps.o,S,self.wguess(pd.o,D,ps.off,n))
        if isinstance(D,CellS): D=self.toarr(st,pd.o,D,S.stride or 1)
        if ps.o is pd.o: D=S=st.mem[ps.o.id]
        if S.stride is None:
            if D.stride is None: S=self.layout(st,ps.o,S,8 if not(n.divby(8) is None or n.divby(8)[1]) else 1)
            else:
                T=S.copy(); T.stride=D.stride; T.gran=D.gran
                for g in D.gran: T.ch[g]=self.dfltchain(ps.o,S.dflt,g[1])
                S=T; st.mem[ps.o.id]=T
        if D.stride is None:
            T=D.copy(); T.stride=S.stride; T.gran=S.gran
            for g in S.gran: T.ch[g]=self.dfltchain(pd.o,D.dflt,g[1])
            D=T; st.mem[pd.o.id]=T
        if D.gran!=S.gran: raise Unsupported('memcpy between layouts %s %s'%(S.gran,D.gran))
        a=ps.off.divby(S.stride); b=pd.off.divby(S.stride); m=n.divby(S.stride)
        if not a or not b or not m or a[1] or b[1] or m[1]: raise Unsupported('unaligned memcpy')
        T=D.copy()
        for g in S.gran: T.ch[g]=Upd(D.ch[g],'copy',b[0],m[0],S.ch[g],a[0])
        st.mem[pd.o.id]=T
    def wguess(self,o,D,off,n):
        return D.stride if isinstance(D,ArrS) and D.stride else 8
    # ------------------------------------------------------------ pure evaluation of predicates / spec functions
    def pure(self,fn,args,st,retw):
        """Evaluate fn(args) on st's memory as a term; no obligations; loop-free."""
        self.mod.parse(fn)
        s=st.copy(); s.facts=(); s.writes=None
        base=len(s.fr)
        f=Frame(); f.fn=fn; f.env=dict(zip(fn.params,args)); f.blk=fn.entry; f.ip=0; f.prev=None; f.ret=('pure',); f.allocas=[]
        s.fr=[f]
        out=[]
        saved=(self.dry,self.inpure if hasattr(self,'inpure') else 0); self.dry+=1; self.inpure=saved[1]+1
        try:
            work=[s]; n=0
            while work:
                x=work.pop(); n+=1
                if n>3000: raise Unsupported('pure function too large '+fn.name)
                try:
                    r=self.run(x,None)
                except PathEnd: continue
                for y in r:
                    if y[0]=='pureret': out.append((y[1],y[2]))
                    elif y[0]=='cont': work.append(y[1])
        finally:
            self.dry=saved[0]; self.inpure=saved[1]
        if not out: return False if retw==1 else 0
        res=None
        for s2,v in out:
            if res is None: res=v
            else:
                c=[x for x in s2.facts]
                c=z3.And(*c) if len(c)>1 else (c[0] if c else True)
                res=ite(c,v,res,retw)
        return res
    inpure=0
    # ------------------------------------------------------------ main
    def start(self):
        fn=self.mod.parse(self.mod.funcs['vpc_'+self.h])
        st=State(); f=Frame(); f.fn=fn; f.env={}; f.blk=fn.entry; f.ip=0; f.prev=None; f.ret=None; f.allocas=[]
        st.fr=[f]; return st
    def verify(self):
        st=self.start()
        ends=self.explore([st],None)
        return ends
    def explore(self,states,stop):
        """Runs states to completion. stop=(depth,loop): collect backedges and exits instead.
        -> dict(backs=[state], exits=[state], ends=n)"""
        backs=[]; exits=[]; ends=[]
        work=list(states)
        while work:
            self.tick()
            self.nstates+=1
            if self.nstates>self.maxstates: raise Budget('states')
            s=work.pop()
            try:
                for y in self.run(s,stop):
                    k=y[0]
                    if k=='cont': work.append(y[1])
                    elif k=='back': backs.append(y[1])
                    elif k=='exit': exits.append(y[1])
                    elif k=='end': ends.append(y[1])
            except PathEnd: pass
        return {'backs':backs,'exits':exits,'ends':ends}
    # run one path until a fork; returns list of ('cont',state) etc
    def run(self,st,stop):
        while True:
            f=st.fr[-1]
            if f.ip==0 and f.blk.phis and f.prev is not None: raise RuntimeError('phi')
            I=f.blk.insts[f.ip]; f.ip+=1
            op=I.op
            h=getattr(self,'i_'+op,None)
            if h is not None:
                r=h(st,f,I)
                if r is not None: return r
                continue
            if op=='br':
                if not I.ops:
                    r=self.goto(st,I.x['succ'][0],stop)
                    if r is not None: return r
                    continue
                c=self.val(I.ops[0],st)
                s1,s0=I.x['succ'][1],I.x['succ'][0]   # LLVM order: operand(0)=cond; succ[0]=true
                tb,fb=I.x['succ'][0],I.x['succ'][1]
                if isinstance(c,bool):
                    r=self.goto(st,tb if c else fb,stop)
                    if r is not None: return r
                    continue
                r=self.branch(st,[(c,tb),(z3.Not(c),fb)],stop,I)
                return r
            if op=='switch':
                v=self.val(I.ops[0],st); w=I.x and None
                v=self.toint(v,64,st)
                if isc(v):
                    for cv,b in I.x['cases']:
                        if cv==v: break
                    else: b=I.x['default']
                    r=self.goto(st,b,stop)
                    if r is not None: return r
                    continue
                if isinstance(v,bool): v=int(v)
                if z3.is_bool(v):
                    alts=[(v if cv else z3.Not(v),b) for cv,b in I.x['cases']]
                else: alts=[(v==cv,b) for cv,b in I.x['cases']]
                rest=z3.And(*[z3.Not(a[0]) for a in alts])
                return self.branch(st,alts+[(rest,I.x['default'])],stop,I)
            if op=='ret':
                v=self.val(I.ops[0],st) if I.ops else None
                if f.ret==('pure',): return [('pureret',st,v)]
                for o in f.allocas:
                    S=st.mem.get(o.id)
                    if S is not None: 
                        T=S.copy(); T.alive=False; st.mem[o.id]=T
                st.fr.pop()
                if not st.fr:
                    if not self.dry: self.rets+=1; 
                    self.onend(st)
                    return [('end',st)]
                if f.ret is not None and v is not None: st.fr[-1].env[f.ret]=v
                if stop is not None and len(st.fr)<stop[0]: return [('exit',st)]
                continue
            if op=='unreachable':
                self.obligation(st,False,'unreachable code','ub',I.loc); raise PathEnd()
            raise Unsupported('instruction '+op)
    def onend(self,st):
        pass
    def branch(self,st,alts,stop,I):
        out=[]; feas=[]
        for c,b in alts:
            if self.inpure: feas.append((c,b)); continue
            if b.trap and not self.inpure:
                # entering a trap block is an obligation
                lab='no '+self.traplabel(b)
                if self.dry: st.add(z3.Not(c)); continue
                self.obligation(st,z3.simplify(z3.Not(c)) if False else z3.Not(c),lab,'ub',I.loc)
                continue
            feas.append((c,b))
        if len(feas)==1 and not self.inpure:
            c,b=feas[0]
            st.add(c)
            r=self.goto(st,b,stop)
            return r if r is not None else [('cont',st)]
        ok=[]
        for i,(c,b) in enumerate(feas):
            c=zb(c)
            if self.inpure:
                ok.append((c,b)); continue
            if i==len(feas)-1 and not ok: ok.append((c,b)); continue
            if self.feasible(st.facts,c): ok.append((c,b))
        for i,(c,b) in enumerate(ok):
            s=st.copy() if i<len(ok)-1 else st
            s.add(c)
            if len(ok)>1: s.decided+=1
            r=self.goto(s,b,stop)
            if r is None: out.append(('cont',s))
            else: out+=r
        return out
    def traplabel(self,b):
        for I in b.insts:
            if I.op=='call' and I.x['callee'][0]=='fn':
                n=I.x['callee'][1].name
                if n=='llvm.ubsantrap': 
                    k={0:'signed add overflow',3:'integer division by zero/overflow',5:'float cast overflow',12:'signed mul overflow',17:'shift out of bounds',20:'signed sub overflow',21:'unreachable',18:'out of bounds'}.get(I.ops[0][2],'UB trap %d'%I.ops[0][2])
                    return k
                if n=='__vp_check_fail': return 'CHECK/DCHECK failure'
                return n
        return 'unreachable'
    def goto(self,st,b,stop):
        f=st.fr[-1]; prev=f.blk
        d=len(st.fr)
        L=f.fn.loops.get(b)
        if stop is not None and d==stop[0] and f.fn is stop[1].fn:
            SL=stop[1]
            if b is SL.header:
                self.phis(st,f,prev,b); f.blk=b; f.prev=None; f.ip=0
                return [('back',st)]
            if b not in SL.blocks:
                self.phis(st,f,prev,b); f.blk=b; f.ip=0; f.prev=None
                if L is not None: f.prev=('enter',prev)
                return [('exit',st)]
        self.phis(st,f,prev,b)
        f.blk=b; f.ip=0; f.prev=None
        if b in f.fn.loops and not self.inpure:
            if L is None: raise Unsupported('irreducible loop')
            if not (prev in L.blocks):
                outs=self.loop(st,L)
                res=[]
                for s in outs:
                    res+=self.after_exit(s,stop)
                return res
            if self.mode=='bmc':
                k=(d,b.id); st.unr[k]=st.unr.get(k,0)+1
                if st.unr[k]>self.k: self.bmc_cut=True; raise PathEnd()
            return None
        return None
    def after_exit(self,s,stop):
        """state s has just left a loop (phis done). It may simultaneously leave/close the enclosing stop loop or enter another loop"""
        f=s.fr[-1]; d=len(s.fr); b=f.blk
        if stop is not None:
            SL=stop[1]
            if d<stop[0]: return [('exit',s)]
            if d==stop[0] and f.fn is SL.fn and f.ip==0:
                if b is SL.header: f.prev=None; return [('back',s)]
                if b not in SL.blocks:
                    return [('exit',s)]
        if f.ip==0 and isinstance(f.prev,tuple):
            f.prev=None
            L=f.fn.loops.get(b)
            res=[]
            for x in self.loop(s,L): res+=self.after_exit(x,stop)
            return res
        f.prev=None
        return [('cont',s)]
    def phis(self,st,f,prev,b):
        if not b.phis: return
        vals=[]
        for I in b.phis:
            for pb,o in I.x:
                if pb is prev: vals.append((I.id,self.val(o,st))); break
            else: raise RuntimeError('phi pred')
        for i,v in vals: f.env[i]=v
    # ------------------------------------------------------------ instructions
    def w(self,t): return t.w
    def i_alloca(self,st,f,I):
        t=I.x; n=self.val(I.ops[0],st)
        o=self.newobj(st,'stk%d'%I.loc[1] if I.loc[1] else 'stk',t.size*(n if isc(n) else 1))
        if not isc(n): raise Unsupported('vla')
        f.allocas=f.allocas+[o]
        f.env[I.id]=Ptr(o,ZERO)
    def i_load(self,st,f,I):
        p=self.val(I.ops[0],st)
        f.env[I.id]=self.load(st,p,I.ty,I.loc)
    def i_store(self,st,f,I):
        v=self.val(I.ops[0],st); p=self.val(I.ops[1],st)
        self.store(st,self.toptr(p),v,I.x,I.loc)
    def i_gep(self,st,f,I):
        p=self.val(I.ops[0],st)
        if isinstance(p,FnPtr): raise Unsupported('gep fn')
        p=self.toptr(p)
        c,ts=I.x; off=p.off.add(Lin(c,{})) if c else p.off
        for sc,o,w in ts:
            v=self.toint(self.val(o,st),64,st)
            if w<64: v=(sx(v,w)&M64) if isc(v) else z3.SignExt(64-w,v)
            elif w>64: raise Unsupported('gep idx')
            off=off.add(lin(v).mul(sc))
        f.env[I.id]=Ptr(p.o,off)
    def binop(self,op,a,b,w):
        if w==1:
            if op in('and','or','xor','add','sub'):
                if isinstance(a,bool) and isinstance(b,bool):
                    return (a and b) if op=='and' else (a or b) if op=='or' else a!=b
                if op=='and':
                    if a is True: return b
                    if b is True: return a
                    if a is False or b is False: return False
                    return z3.And(a,b)
                if op=='or':
                    if a is False: return b
                    if b is False: return a
                    if a is True or b is True: return True
                    return z3.Or(a,b)
                if isinstance(a,bool): return z3.Not(b) if a else b
                if isinstance(b,bool): return z3.Not(a) if b else a
                return z3.Xor(a,b)
            raise Unsupported('i1 '+op)
        if isc(a) and isc(b):
            m=mask(w)
            if op=='add': return (a+b)&m
            if op=='sub': return (a-b)&m
            if op=='mul': return (a*b)&m
            if op=='and': return a&b
            if op=='or': return a|b
            if op=='xor': return a^b
            if op=='shl': return (a<<b)&m if b<w else 0
            if op=='lshr': return a>>b if b<w else 0
            if op=='ashr': return (sx(a,w)>>min(b,w-1))&m
            if op=='udiv' and b: return a//b
            if op=='urem' and b: return a%b
            if op=='sdiv' and b:
                x,y=sx(a,w),sx(b,w); q=abs(x)//abs(y); return (q if (x<0)==(y<0) else -q)&m
            if op=='srem' and b:
                x,y=sx(a,w),sx(b,w); r=abs(x)%abs(y); return (r if x>=0 else -r)&m
        if w==64:
            if op=='add': return lin(a).add(lin(b)).z()
            if op=='sub': return lin(a).add(lin(b),-1).z()
            if op=='mul' and (isc(a) or isc(b)):
                return lin(a).mul(b).z() if isc(b) else lin(b).mul(a).z()
            if op=='shl' and isc(b): return lin(a).mul(1<<b).z() if b<64 else 0
        if isc(b):
            if op=='and':
                if b==0: return 0
                if b==mask(w): return a
            if op in('or','xor','add','sub','shl','lshr','ashr') and b==0: return a
            if op in('mul','udiv') and b==1: return a
            if op in('udiv','urem') and b and b&(b-1)==0:
                k=b.bit_length()-1
                return z3.LShR(bv(a,w),z3.BitVecVal(k,w)) if op=='udiv' else bv(a,w)&z3.BitVecVal(b-1,w)
        if isc(a):
            if op=='and' and a==0: return 0
            if op=='and' and a==mask(w): return b
            if op in('or','xor','add') and a==0: return b
        A,B=bv(a,w),bv(b,w)
        if op=='add': return A+B
        if op=='sub': return A-B
        if op=='mul': return A*B
        if op=='and': return A&B
        if op=='or': return A|B
        if op=='xor': return A^B
        if op=='shl': return A<<B
        if op=='lshr': return z3.LShR(A,B)
        if op=='ashr': return A>>B
        if op=='udiv': return z3.UDiv(A,B)
        if op=='urem': return z3.URem(A,B)
        if op=='sdiv': return A/B
        if op=='srem': return z3.SRem(A,B)
        raise Unsupported(op)
    def i_bin(self,st,f,I):
        w=I.ty.w
        a=self.val(I.ops[0],st); b=self.val(I.ops[1],st)
        if I.ty.k=='vec':
            f.env[I.id]=[self.binop(I.op,x,y,I.ty.el.w) for x,y in zip(a,b)]; return
        f.env[I.id]=self.binop(I.op,self.toint(a,w,st),self.toint(b,w,st),w)
    for _o in('add','sub','mul','and','or','xor','shl','lshr','ashr','udiv','urem','sdiv','srem'): locals()['i_'+_o]=i_bin
    def cmp(self,pred,a,b,w):
        if w==1:
            if pred=='eq': return self.binop('xor',self.binop('xor',a,b,1),True,1)
            if pred=='ne': return self.binop('xor',a,b,1)
            a=int(a) if isinstance(a,bool) else z3.If(a,z3.BitVecVal(1,1),z3.BitVecVal(0,1)); b=int(b) if isinstance(b,bool) else z3.If(b,z3.BitVecVal(1,1),z3.BitVecVal(0,1))
        if isc(a) and isc(b):
            if pred in('slt','sle','sgt','sge'): a,b=sx(a,w),sx(b,w)
            return {'eq':a==b,'ne':a!=b,'ult':a<b,'slt':a<b,'ule':a<=b,'sle':a<=b,'ugt':a>b,'sgt':a>b,'uge':a>=b,'sge':a>=b}[pred]
        if w==64 and pred in('eq','ne'):
            d=lin(a).add(lin(b),-1)
            if d.const is not None: return (d.c==0)==(pred=='eq')
        A,B=bv(a,w),bv(b,w)
        if A.eq(B): return pred in('eq','ule','uge','sle','sge')
        return {'eq':lambda:A==B,'ne':lambda:A!=B,'ult':lambda:z3.ULT(A,B),'ule':lambda:z3.ULE(A,B),'ugt':lambda:z3.UGT(A,B),'uge':lambda:z3.UGE(A,B),'slt':lambda:A<B,'sle':lambda:A<=B,'sgt':lambda:A>B,'sge':lambda:A>=B}[pred]()
    def i_icmp(self,st,f,I):
        pred,t=I.x
        a=self.val(I.ops[0],st); b=self.val(I.ops[1],st)
        if t.k=='vec': raise Unsupported('vector icmp')
        if isinstance(a,(Ptr,FnPtr)) or isinstance(b,(Ptr,FnPtr)):
            f.env[I.id]=self.pcmp(st,pred,a,b)
        else: f.env[I.id]=self.cmp(pred,a,b,t.w or 64)
        if st.writes is not None: self.cmplog(st,pred,a,b,t)
    def pcmp(self,st,pred,a,b):
        if isinstance(a,FnPtr) or isinstance(b,FnPtr):
            if isinstance(a,FnPtr) and isinstance(b,FnPtr): e=a.f is b.f
            else: e=False
            if pred in('eq','ne'): return e==(pred=='eq')
            raise Unsupported('fn cmp')
        a=self.toptr(a); b=self.toptr(b)
        if a.o is b.o:
            return self.cmp(pred,a.off.z(),b.off.z(),64)
        if pred in('eq','ne'): 
            if (a.o is None and a.off.const!=0) or (b.o is None and b.off.const!=0):
                return self.cmp(pred,self.toint(a,64,st),self.toint(b,64,st),64)
            return pred=='ne'
        return self.cmp(pred,self.toint(a,64,st),self.toint(b,64,st),64)
    def cmplog(self,st,pred,a,b,t):
        if isinstance(a,Ptr) and isinstance(b,Ptr): 
            if a.o is b.o: self.cmps.append((64,a.off.z(),b.off.z()))
            return
        if isinstance(a,(Ptr,FnPtr)) or isinstance(b,(Ptr,FnPtr)) : return
        if t.w and t.w>=16: self.cmps.append((t.w,a,b))
    def i_trunc(self,st,f,I):
        a=self.toint(self.val(I.ops[0],st),64,st); w=I.ty.w
        if I.ty.k=='vec': raise Unsupported('vec trunc')
        if isc(a): a&=mask(w); f.env[I.id]=bool(a) if w==1 else a
        elif w==1: f.env[I.id]=z3.Extract(0,0,a)==1
        else: f.env[I.id]=self.extract0(a,w)
    def extract0(self,a,w):
        # keep linear structure visible: trunc(zext x)=x
        k=a.decl().kind()
        if k in(z3.Z3_OP_ZERO_EXT,z3.Z3_OP_SIGN_EXT) and a.arg(0).size()==w: return a.arg(0)
        return z3.Extract(w-1,0,a)
    def i_zext(self,st,f,I):
        a=self.val(I.ops[0],st); t=I.x; w=I.ty.w
        if t.k=='vec': raise Unsupported('vec zext')
        if isinstance(a,bool): f.env[I.id]=int(a)
        elif isc(a): f.env[I.id]=a
        elif t.w==1: f.env[I.id]=z3.If(a,z3.BitVecVal(1,w),z3.BitVecVal(0,w))
        else: f.env[I.id]=z3.ZeroExt(w-t.w,a)
    def i_sext(self,st,f,I):
        a=self.val(I.ops[0],st); t=I.x; w=I.ty.w
        if t.k=='vec': raise Unsupported('vec sext')
        if isinstance(a,bool): f.env[I.id]=mask(w) if a else 0
        elif isc(a): f.env[I.id]=sx(a,t.w)&mask(w)
        elif t.w==1: f.env[I.id]=z3.If(a,z3.BitVecVal(mask(w),w),z3.BitVecVal(0,w))
        else: f.env[I.id]=z3.SignExt(w-t.w,a)
    def i_ptrtoint(self,st,f,I):
        f.env[I.id]=self.toint(self.val(I.ops[0],st),64,st)
    def i_inttoptr(self,st,f,I): f.env[I.id]=self.toptr(self.val(I.ops[0],st))
    def i_bitcast(self,st,f,I):
        f.env[I.id]=self.val(I.ops[0],st)
    i_addrspacecast=i_bitcast
    def i_freeze(self,st,f,I): f.env[I.id]=self.val(I.ops[0],st)
    def i_select(self,st,f,I):
        c=self.val(I.ops[0],st)
        a=self.val(I.ops[1],st); b=self.val(I.ops[2],st)
        if isinstance(c,list): raise Unsupported('vector select')
        if isinstance(c,bool): f.env[I.id]=a if c else b; return
        if I.ty.k=='ptr' or isinstance(a,(Ptr,FnPtr)) or isinstance(b,(Ptr,FnPtr)):
            if isinstance(a,Ptr) and isinstance(b,Ptr) and a.o is b.o and (a.o is None or not isinstance(st.mem.get(a.o.id),CellS) or a.off.key()==b.off.key()):
                f.env[I.id]=Ptr(a.o,lin(ite(c,a.off.z(),b.off.z(),64))); return
            out=[]
            ok=[(x,v) for x,v in((c,a),(z3.Not(c),b)) if self.inpure or self.feasible(st.facts,x)]
            for i,(x,v) in enumerate(ok):
                s=st.copy() if i<len(ok)-1 else st
                s.add(x); s.fr[-1].env[I.id]=v; out.append(('cont',s))
            return out
        if I.ty.k in('struct','array'): 
            f.env[I.id]=[ite(c,x,y,e.w) for x,y,e in zip(a,b,I.ty.els or [I.ty.el]*I.ty.n)]; return
        if 'selects' in st.opts and not self.inpure and I.ty.k=='int' and I.ty.w>=32:
            ok=[(x,v) for x,v in((c,a),(z3.Not(c),b)) if self.feasible(st.facts,x)]
            out=[]
            for i,(x,v) in enumerate(ok):
                s=st.copy() if i<len(ok)-1 else st
                s.add(x); s.fr[-1].env[I.id]=v; out.append(('cont',s))
            return out
        f.env[I.id]=ite(c,a,b,I.ty.w)
    def i_extractvalue(self,st,f,I):
        v=self.val(I.ops[0],st); path=I.x[0] if isinstance(I.x,tuple) else I.x
        for i in path: v=v[i]
        f.env[I.id]=v
    def i_insertvalue(self,st,f,I):
        v=self.val(I.ops[0],st); x=self.val(I.ops[1],st); path=I.x
        def ins(a,p):
            a=list(a)
            a[p[0]]=x if len(p)==1 else ins(a[p[0]],p[1:])
            return a
        f.env[I.id]=ins(v,path)
    def i_fence(self,st,f,I): pass
    def i_atomicrmw(self,st,f,I):
        op,t=I.x; p=self.toptr(self.val(I.ops[0],st)); v=self.val(I.ops[1],st)
        old=self.load(st,p,t,I.loc); w=t.w
        if op=='xchg': new=v
        elif op in('add','sub','and','or','xor'): new=self.binop(op,self.toint(old,w,st),self.toint(v,w,st),w)
        else: raise Unsupported('atomicrmw '+op)
        self.store(st,p,new,t,I.loc); f.env[I.id]=old
    def i_cmpxchg(self,st,f,I):
        t=I.x; p=self.toptr(self.val(I.ops[0],st)); e=self.val(I.ops[1],st); n=self.val(I.ops[2],st)
        old=self.load(st,p,t,I.loc)
        c=self.pcmp(st,'eq',old,e) if isinstance(old,(Ptr,FnPtr)) or isinstance(e,(Ptr,FnPtr)) else self.cmp('eq',old,e,t.w)
        self.store(st,p,ite(c,n,old,t.w or 64),t,I.loc)
        f.env[I.id]=[old,c]
    def i_extractelement(self,st,f,I):
        v=self.val(I.ops[0],st); i=self.val(I.ops[1],st); f.env[I.id]=v[i]
    def i_insertelement(self,st,f,I):
        v=list(self.val(I.ops[0],st)); x=self.val(I.ops[1],st); i=self.val(I.ops[2],st); v[i]=x; f.env[I.id]=v
    def i_shufflevector(self,st,f,I):
        a=self.val(I.ops[0],st); b=self.val(I.ops[1],st); ab=list(a)+list(b)
        f.env[I.id]=[ab[i] if i>=0 else 0 for i in I.x]
    # floats: values are bit patterns
    FS={32:z3.Float32(),64:z3.Float64()}
    def fp(self,v,w): return z3.fpBVToFP(bv(v,w),self.FS[w])
    def fpbv(self,x,w): return z3.fpToIEEEBV(x)
    def fcls(self,v,w):
        m=52 if w==64 else 23
        A=bv(v,w); mag=A&z3.BitVecVal(mask(w-1),w); inf=z3.BitVecVal(((1<<(w-1-m))-1)<<m,w)
        return A,mag,z3.UGT(mag,inf)
    def i_fcmp(self,st,f,I):
        pred,t=I.x; a=self.val(I.ops[0],st); b=self.val(I.ops[1],st); w=t.w
        f.env[I.id]=self.fcmp(pred,a,b,w)
    def fcmp(self,pred,a,b,w):
        if pred=='true': return True
        if pred=='false': return False
        A,ma,na=self.fcls(a,w); B,mb,nb=self.fcls(b,w)
        uno=z3.Or(na,nb)
        z0=z3.BitVecVal(0,w)
        eq=z3.Or(A==B,z3.And(ma==z0,mb==z0))
        sa=A<z0; sb=B<z0
        lt=z3.And(z3.Not(z3.And(ma==z0,mb==z0)),z3.If(sa,z3.If(sb,z3.UGT(ma,mb),True),z3.If(sb,False,z3.ULT(ma,mb))))
        gt=z3.And(z3.Not(eq),z3.Not(lt))
        base={'eq':eq,'gt':gt,'ge':z3.Or(gt,eq),'lt':lt,'le':z3.Or(lt,eq),'ne':z3.Not(eq)}
        if pred=='ord': r=z3.Not(uno)
        elif pred=='uno': r=uno
        elif pred[0]=='o': r=z3.And(z3.Not(uno),base[pred[1:]])
        else: r=z3.Or(uno,base[pred[1:]])
        r=z3.simplify(r)
        if z3.is_true(r): return True
        if z3.is_false(r): return False
        return r
    def uff(self,name,w,*args,st=None):
        fn=z3.Function(name,*([z3.BitVecSort(w)]*len(args)),z3.BitVecSort(w)) 
        args=[bv(a,w) for a in args]
        if st is not None and 'commut' in st.opts and name[:4] in('fadd','fmul'):
            c=z3.ULE(args[0],args[1]); args=[z3.If(c,args[0],args[1]),z3.If(c,args[1],args[0])]
        elif name[:4] in('fadd','fmul'): args.sort(key=lambda a:a.get_id())  # commutative (up to the payload of a NaN)
        return fn(*args)
    def i_fbin(self,st,f,I):
        w=I.ty.w; a=self.val(I.ops[0],st); b=self.val(I.ops[1],st)
        if self.h.endswith('_fp') or 'fp' in st.opts:
            op={'fadd':z3.fpAdd,'fsub':z3.fpSub,'fmul':z3.fpMul,'fdiv':z3.fpDiv}[I.op]
            r=op(z3.RNE(),self.fp(a,w),self.fp(b,w)); f.env[I.id]=self.fpbv(r,w)
        else:
            f.env[I.id]=self.uff('%s%d'%(I.op,w),w,a,b,st=st)
    for _o in('fadd','fsub','fmul','fdiv','frem'): locals()['i_'+_o]=i_fbin
    def i_fneg(self,st,f,I):
        w=I.ty.w; a=self.val(I.ops[0],st); f.env[I.id]=self.binop('xor',a,1<<(w-1),w)
    def i_sitofp(self,st,f,I):
        t=I.x; w=I.ty.w; a=self.val(I.ops[0],st)
        f.env[I.id]=self.fpbv(z3.fpSignedToFP(z3.RNE(),bv(a,t.w),self.FS[w]),w)
    def i_uitofp(self,st,f,I):
        t=I.x; w=I.ty.w; a=self.val(I.ops[0],st)
        if t.w==1: a=1 if a is True else 0 if a is False else z3.If(a,z3.BitVecVal(1,8),z3.BitVecVal(0,8)); tw=8
        else: tw=t.w
        f.env[I.id]=self.fpbv(z3.fpUnsignedToFP(z3.RNE(),bv(a,tw),self.FS[w]),w)
    def i_fptosi(self,st,f,I):
        t=I.x; f.env[I.id]=z3.fpToSBV(z3.RTZ(),self.fp(self.val(I.ops[0],st),t.w),z3.BitVecSort(I.ty.w))
    def i_fptoui(self,st,f,I):
        t=I.x; f.env[I.id]=z3.fpToUBV(z3.RTZ(),self.fp(self.val(I.ops[0],st),t.w),z3.BitVecSort(I.ty.w))
    def i_fptrunc(self,st,f,I):
        f.env[I.id]=self.fpbv(z3.fpFPToFP(z3.RNE(),self.fp(self.val(I.ops[0],st),I.x.w),self.FS[I.ty.w]),I.ty.w)
    i_fpext=i_fptrunc
    # ------------------------------------------------------------ calls
    def cstr(self,p,st):
        S=st.mem[p.o.id]; out=[]; i=p.off.const
        while True:
            e=S.cells.get(i)
            if e is None or e[1]==0: break
            out.append(chr(e[1])); i+=1
        return ''.join(out)
    def i_call(self,st,f,I):
        c=I.x['callee']
        if c[0]=='fn': fn=c[1]
        elif c[0]=='v' or c[0]=='other':
            if c[0]=='other': raise Unsupported('inline asm')
            v=f.env[c[1]]
            if not isinstance(v,FnPtr): raise Unsupported('indirect call')
            fn=v.f
        else: 
            v=self.const(c,st)
            if isinstance(v,FnPtr): fn=v.f
            else: raise Unsupported('callee')
        n=fn.name
        args=[self.val(o,st) for o in I.ops] if not n.startswith('llvm.dbg') else []
        h=self.builtin(n)
        if h is not None:
            r=h(self,st,f,I,args)
            if isinstance(r,tuple) and r and r[0]=='fork': return r[1]
            if I.ty.k!='void' : f.env[I.id]=r
            return None
        if n.startswith('spec_'):
            f.env[I.id]=self.specapply(st,fn,args,I.ty); return None
        self.mod.parse(fn)
        if not fn.blocks: raise Unsupported('external function '+n)
        if len(st.fr)>60: raise Unsupported('recursion '+n)
        self.fnset.add(n)
        g=Frame(); g.fn=fn; g.env=dict(zip(fn.params,args)); g.blk=fn.entry; g.ip=0; g.prev=None; g.ret=I.id if I.ty.k!='void' else None; g.allocas=[]
        st.fr.append(g)
    i_invoke=None
    def specapply(self,st,fn,args,ty):
        """uninterpreted application; pointers become (base identity, offset)"""
        nm=fn.name; zs=[]; w=ty.w
        allc=True
        for a in args:
            if isinstance(a,Ptr):
                if a.o is None: nm+='|null'; zs.append(bv(a.off.z(),64)); continue
                S=st.mem[a.o.id]
                if isinstance(S,CellS): nm+='|o%d_%d'%(a.o.id,id(S)); self.keep.append(S)
                else:
                    for g in sorted(S.ch): nm+='|%d_%d'%(a.o.id,id(S.ch[g])); self.keep.append(S.ch[g])
                    if not S.ch: nm+='|%d'%a.o.id
                zs.append(bv(a.off.z(),64)); allc=allc and a.off.const is not None
            elif isinstance(a,bool) or (not isc(a) and z3.is_bool(a)): zs.append(z3.If(zb(a),z3.BitVecVal(1,8),z3.BitVecVal(0,8))); allc=allc and isinstance(a,bool)
            elif isc(a): 
                pw=fn.ptypes[len(zs)].w if fn.parsed else self.mod.parse(fn).ptypes[len(zs)].w
                zs.append(bv(a,pw))
            else: zs.append(a); allc=False
        uf=z3.Function(nm,*[z.sort() for z in zs],z3.BoolSort() if w==1 else z3.BitVecSort(w))
        app=uf(*zs)
        self.specfn[uf.get_id()]=uf
        if app.get_id() not in self.specapp:
            s=st.copy(); s.fr=[]
            self.specapp[app.get_id()]={'app':app,'fn':fn,'args':args,'state':s,'w':w}
        return app
    def builtin(self,n):
        h=BUILTINS.get(n)
        if h is not None: return h
        for p,h in BPREFIX:
            if n.startswith(p): return h
        return None
    # ------------------------------------------------------------ loops
    def loop(self,st,L):
        """st is at L.header (phis done, entering). -> list of exit states"""
        if self.mode=='bmc':
            st.unr[(len(st.fr),L.header.id)]=0
            return self.bmc_loop(st,L)
        self.tick()
        f=st.fr[-1]; key=(f.fn.name,L.header.idx)
        self.loopset.add(key)
        r=self.try_unroll(st,L)
        if r is not None: self.loopmode.setdefault(key,'unrolled'); return r
        self.loopmode[key]='invariant'
        return self.inv_loop(st,L)
    def bmc_loop(self,st,L):
        d=len(st.fr); outs=[]; cur=[st]
        for i in range(self.k+1):
            r=self.explore(cur,(d,L))
            outs+=r['exits']
            cur=r['backs']
            if not cur: break
        else:
            if cur: self.bmc_cut=True
        return outs
    bmc_cut=False
    def try_unroll(self,st,L):
        limit=st.opts.get('unroll',0)
        d=len(st.fr); outs=[]; cur=[st.copy()]; it=0
        dec0=st.decided
        nc0=len(self.ncache); ch0=self.cheap; dry0=self.dry
        self.dry+=1
        ok=False; w=st.writes
        try:
            while cur and it<=max(limit,70):
                r=self.explore(cur,(d,L))
                if r['exits'] and r['backs']:
                    if it>=limit: return None
                if len(r['backs'])>(64 if limit else 4): return None
                cur=r['backs']; it+=1
            ok=not cur
        except Unsupported: return None
        finally: self.dry=dry0; del self.ncache[nc0:]; self.cheap=ch0
        if not ok: return None
        # real pass
        cur=[st]; 
        while cur:
            r=self.explore(cur,(d,L)); outs+=r['exits']; cur=r['backs']
        return outs
    def lterms(self,hs): pass
    def inv_loop(self,st,L):
        d=len(st.fr); fr=st.fr[-1]; H=L.header
        phis=H.phis
        entry=st
        written=set(); outerw=st.writes
        # ---- discovery of modified memory and affine variables
        def mkheader(affine,cnt,havoc_names):
            """fresh header state; returns (state, vars) vars: list of dict(kind,get,cur,init,w,obj)"""
            s=entry.copy(); s.writes=set(); f=s.fr[-1]; vs=[]
            for I in phis:
                v0=entry.fr[-1].env[I.id]; t=I.ty
                vs.append(self.mkvar(s,('phi',I.id),v0,t.w if t.k in('int','float') else 64,t,affine,cnt))
                f.env[I.id]=vs[-1]['cur']
            # memory
            byobj={}
            for wv in written: byobj.setdefault(wv[0],[]).append(wv[1:])
            for oid,ws in sorted(byobj.items()):
                S=entry.mem.get(oid)
                if S is None: continue
                if isinstance(S,CellS):
                    if any(x[0] in('toarr','arr','all') for x in ws) and not (all(x[0] not in('toarr','arr') for x in ws)):
                        o=self.objid(oid)
                        tmp=entry.copy(); tmp.writes=None
                        wd=[x[1][1] for x in ws if x[0]=='arr']
                        S2=self.toarr(tmp,o,S,wd[0] if wd else 1)
                        S=S2; s.mem[oid]=S2
                    else:
                        T=S.copy()
                        if any(x[0]=='all' for x in ws):
                            for k,(n,v) in list(T.cells.items()):
                                if isinstance(v,(Ptr,FnPtr)): continue
                                T.cells[k]=(n,self.sym('hv',8*n))
                        for (c,n) in sorted(set(x for x in ws if len(x)==2 and x[0]!='arr')):
                            e=S.cells.get(c)
                            if e is not None and e[0]==n: v0=e[1]
                            else:
                                v0=self.rdcell(entry,self.objid(oid),entry.mem[oid],c,n) if not (S.dflt=='undef' and e is None) else None
                            self.carve(s,T,c,n)
                            if v0 is None:
                                # uninitialised before the loop: its type is decided by the loop body
                                if (oid,c,n) in ptrcells: T.cells[c]=(n,NULL)
                                else: T.cells[c]=(n,self.sym('hv',8*n))
                                continue
                            vr=self.mkvar(s,('mem',oid,c,n),v0,8*n,None,affine,cnt)
                            vs.append(vr); T.cells[c]=(n,vr['cur'])
                        s.mem[oid]=T
                        continue
                if isinstance(S,ArrS):
                    T=S.copy()
                    if S.stride is None:
                        lay=[x for x in ws if x[0]=='arr']
                        ww=lay[0][1][1] if lay else 1
                        T.stride=ww; T.gran=((0,ww),)
                        T.ch={}
                        gl=[(0,ww)]
                        if lay and lay[0][1][0]!=0: raise Unsupported('layout')
                    else:
                        gl=list(S.gran) if any(x[0]=='all' for x in ws) else sorted(set(x[1] for x in ws if x[0]=='arr'))
                    for g in gl:
                        nm=self.name('arr_%s_%d'%(self.objid(oid).name,g[0]))
                        T.ch[g]=Base(nm,g[1])
                    s.mem[oid]=T
            return s,vs
        ptrcells=set()
        affine={}
        # tentatively: pointers into arrays of structs step by whole elements
        tent={('tent','strided'):1}; retry=False
        for rnd in range(8):
            cnt=self.mkcnt(entry)
            hs,vs=mkheader(tent,cnt,None)
            W=hs.writes
            savedc=self.cmps; self.cmps=[]
            self.dry+=1; self.cheap+=1
            try: r=self.explore([hs],(d,L))
            finally:
                self.dry-=1; self.cheap-=1; mycmps=self.cmps; self.cmps=savedc+mycmps
            neww=set()
            for wv in W:
                if wv[0] in entry.mem:
                    if wv[1]=='free': raise Unsupported('deallocation in loop')
                    neww.add(wv)
            for b in r['backs']:
                for wv in neww:
                    if len(wv)==3 and not isinstance(wv[1],str):
                        S=b.mem.get(wv[0])
                        if isinstance(S,CellS) and wv[1] in S.cells and isinstance(S.cells[wv[1]][1],(Ptr,FnPtr)): ptrcells.add(wv)
            # cells written with overlapping extents: keep as is
            if neww<=written:
                # affine detection
                for vr in vs:
                    if vr['kind']=='fixed': continue
                    steps=set()
                    for b in r['backs']:
                        nx=self.varnext(b,vr)
                        if nx is None: steps.add(None); break
                        steps.add(self.delta(nx,vr))
                    if len(steps)==1 and None not in steps: affine[vr['key']]=steps.pop()
                    elif vr['isptr'] and vr['obj'] is not None:
                        S=entry.mem.get(vr['obj'].id); sd=S.stride if isinstance(S,ArrS) else None
                        if sd and sd>1:
                            q=vr['init'].off.divby(sd)
                            ok=q is not None
                            for b in r['backs'] if ok else ():
                                nx=self.varnext(b,vr)
                                dq=nx.off.add(vr['cur'].off,-1).divby(sd) if isinstance(nx,Ptr) and nx.o is vr['obj'] else None
                                if dq is None or dq[1]: ok=False
                            if ok: affine[(vr['key'],'strided')]=(sd,q[1])
                    if 'tent' in vr and (vr['key'],'strided') not in affine and affine.get(vr['key'],1)%vr['tent']: retry=True
                if retry and tent: tent={}; affine={}; continue
                break
            written|=neww
        else: raise Unsupported('loop write set')
        self.log(f'  loop {fr.fn.name[:40]} hdr{H.idx} vars={len(vs)} affine={len(affine)} backs={len(r["backs"])} exits={len(r["exits"])} written={len(written)}')
        if outerw is not None: outerw|=written
        if not r['backs']:
            # body never loops back: execute once
            return self.explore([entry],(d,L))['exits']
        if self.cheap:
            # inside the write-set discovery of an enclosing loop: no invariants needed
            s=hs.copy(); s.writes=outerw
            cnt=self.mkcnt(entry); s,_=mkheader(affine,cnt,None); s.writes=outerw
            return self.explore([s],(d,L))['exits']
        cmps=mycmps
        # ---- header with affine representation
        cnt=self.mkcnt(entry,affine)
        hs,vs=mkheader(affine,cnt,None)
        hbases=[ch for oid in set(w[0] for w in written) for ch in (hs.mem[oid].ch.values() if isinstance(hs.mem.get(oid),ArrS) else ()) if isinstance(ch,Base)]
        henv=lambda s:{'vals':{v['key']:v['cur'] for v in vs},'n':cnt,'state':s,'init':{'vals':{v['key']:v['init'] for v in vs},'n':0,'state':None}}
        cands=self.gencands(entry,hs,vs,cnt,cmps,affine)
        cands+=self.recurrences(entry,hs,vs,cnt,affine,(d,L))
        # nested loop in a later round of the enclosing loop: restart from the previous round's set
        ckey=(d,fr.fn.name,H.idx)
        if self.ncache:
            prev=self.ncache[-1][0]
            if prev is not None and ckey in prev: cands=[c for c in cands if norm(c['desc']) in prev[ckey]]
        # optimistic round of an enclosing loop: the nested set of the previous round is assumed and
        # checked again before the enclosing loop's set is accepted (and in its final pass)
        if self.optim and self.ncache and self.ncache[-1][0] and ckey in self.ncache[-1][0]:
            s=hs.copy(); s.writes=outerw
            for b in hbases: b.quant=[]
            for c in cands:
                if c['q'] is not None: c['hb']=hbases
                self.assume_cand(s,c,henv)
            self.ncache[-1][1].setdefault(ckey,set()).update(norm(c['desc']) for c in cands)
            return self.explore([s],(d,L))['exits']
        # entry filter
        live=self.filter_entry(entry,vs,cnt,cands,hs)
        self.log(f'    candidates {len(cands)} entry-ok {len(live)}')
        # ---- Houdini
        for c in live:
            if c['q'] is not None: c['hb']=hbases
        def resetq():
            for b in hbases: b.quant=[]
            self.resetinc()
        self.ncache.append([None,{}])
        opt=False; opt0=self.optim
        while True:
            self.tick()
            resetq()
            s=hs.copy(); s.writes=set()
            for c in live: self.assume_cand(s,c,henv)
            s0=s.copy()
            self.dry+=1; self.optim=opt; self.outer=self.outer+[vs]
            try: r=self.explore([s],(d,L))
            finally: self.dry-=1; self.optim=opt0; self.outer=self.outer[:-1]
            drop=self.filter_back(r['backs'],vs,cnt,live,hs,affine)
            self.ncache[-1]=[self.ncache[-1][1],{}]
            if not drop:
                if not opt: break
                opt=False; continue
            live=[c for c in live if id(c) not in drop]
            opt=bool(self.ncache[-1][0])
        self.log(f'    inductive {len(live)}')
        if any(c.get('must') and c not in live for c in cands): raise Unsupported('a loop variable leaves the declared range: '+str([c['desc'] for c in cands if c.get('must') and c not in live]))
        self.invs.setdefault((fr.fn.name,H.idx),[]).append([c['desc'] for c in live])
        # ---- final pass
        resetq()
        s=hs.copy(); s.writes=outerw
        for c in live: self.assume_cand(s,c,henv)
        self.optim=False; self.outer=self.outer+[vs]
        try: r=self.explore([s],(d,L))
        finally: self.optim=opt0; self.outer=self.outer[:-1]
        self.ncache.pop()
        if self.ncache: self.ncache[-1][1].setdefault(ckey,set()).update(norm(c['desc']) for c in live)
        if not self.dry: self.obl.append((f'loop invariant preserved ({len(live)} clauses)','inv',(fr.fn.name[:60],H.idx),'unsat',0.0))
        return r['exits']
    ncache=[]; cheap=0; optim=False; outer=[]
    def recurrences(self,entry,hs,vs,cnt,affine,stop):
        """v == (n==0 ? init : T[n-1]) for variables whose next value T depends only on the counter"""
        out=[]
        rest=[v for v in vs if v['kind']!='fixed' and v['key'] not in affine and not v['isptr']]
        if not rest: return out
        self.dry+=1; sc=self.cmps
        try: r=self.explore([hs.copy()],stop)
        finally: self.dry-=1; self.cmps=sc
        ok=self.entrysyms(entry)|{(cnt.arg(0) if cnt.num_args() else cnt).get_id()}
        if not r['backs']: return out
        for vr in rest:
            ts=[]
            for b in r['backs']:
                nx=self.varnext(b,vr)
                if nx is None or isinstance(nx,(Ptr,FnPtr,list)): ts=None; break
                ts.append(nx)
            if not ts: continue
            t=ts[0]
            if any((isc(x)!=isc(t)) or (not isc(x) and not x.eq(t)) if not isinstance(t,bool) else x is not t for x in ts): continue
            if not isc(t) and not isinstance(t,bool):
                acc=set(); self.leafs(t,acc)
                if not acc<=ok: continue
            def fn(e,vr=vr,t=t):
                n=e['n']
                if isc(n) and n==0: return True
                pn=bv(self.binop('sub',n,1,64),64)
                tv=t if isc(t) or isinstance(t,bool) else z3.substitute(t,(cnt,pn))
                v=e['vals'][vr['key']]
                if vr['w']==1: q=zb(v)==z3.If(bv(n,64)==0,zb(vr['init']),zb(tv))
                else: q=bv(v,vr['w'])==z3.If(bv(n,64)==0,bv(vr['init'],vr['w']),bv(tv,vr['w']))
                return q
            out.append({'desc':'recurrence %s'%(vr['key'],),'fn':fn,'q':None})
        return out
    def objid(self,oid):
        for o in self.allobjs:
            if o.id==oid: return o
        raise KeyError
    def mkcnt(self,entry,affine={}):
        """the iteration counter; opt narrowcnt=K: in K bits, that it fits is a mandatory invariant"""
        K=entry.opts.get('narrowcnt') if any(k[-1]!='strided' for k in affine) else None
        return z3.ZeroExt(64-K,z3.BitVec(self.name('n'),K)) if K else z3.BitVec(self.name('n'),64)
    def mkvar(self,s,key,v0,w,t,affine,cnt):
        vr={'key':key,'init':v0,'w':w,'kind':'int','obj':None,'isptr':False}
        nm='L%s_'%(key[0])
        if isinstance(v0,FnPtr): vr['kind']='fixed'; vr['cur']=v0; return vr
        if isinstance(v0,Ptr):
            vr['isptr']=True; vr['obj']=v0.o
            if v0.o is None and not (t is not None and t.k=='int'): vr['kind']='fixed'; vr['cur']=v0; return vr
            if key in affine:
                vr['cur']=Ptr(v0.o,v0.off.add(lin(cnt).mul(affine[key])))
            elif (key,'strided') in affine:
                # steps by whole elements: offset = sd*index+rem (checked again in filter_back)
                sd,rem=vr['strided']=affine[(key,'strided')]
                K=s.opts.get('narrow')
                if K: vr['narrow']=K
                ix=z3.ZeroExt(64-K,self.sym(nm,K)) if K else self.sym(nm,64)
                vr['cur']=Ptr(v0.o,lin(ix).mul(sd).add(Lin(rem,{})))
            else:
                S=s.mem.get(v0.o.id) if ('tent','strided') in affine else None
                q=v0.off.divby(S.stride) if isinstance(S,ArrS) and S.stride and len(S.gran)>1 else None
                if q is not None:
                    vr['tent']=S.stride
                    vr['cur']=Ptr(v0.o,lin(self.sym(nm,64)).mul(S.stride).add(Lin(q[1],{})))
                else: vr['cur']=Ptr(v0.o,lin(self.sym(nm,64)))
            return vr
        if isinstance(v0,list):
            raise Unsupported('aggregate phi')
        if isinstance(v0,bool) or (not isc(v0) and z3.is_bool(v0)): w=1; vr['w']=1
        if w==1: vr['cur']=self.sym(nm,1); vr['kind']='bool'; return vr
        if key in affine:
            c=affine[key]
            if w==64: vr['cur']=lin(v0).add(lin(cnt).mul(c)).z()
            elif w<64:
                cc=z3.Extract(w-1,0,cnt)
                vr['cur']=bv(v0,w)+cc*z3.BitVecVal(c&mask(w),w) if (c&mask(w))!=1 else bv(v0,w)+cc
            else: vr['cur']=self.sym(nm,w)
        elif w==64 and 'narrow' in s.opts:
            # represented in fewer bits; that the value fits is a mandatory invariant (see gencands)
            K=s.opts['narrow']; vr['narrow']=K; vr['cur']=z3.ZeroExt(64-K,self.sym(nm,K))
        else: vr['cur']=self.sym(nm,w)
        return vr
    def varnext(self,b,vr):
        k=vr['key']
        if k[0]=='phi': return b.fr[-1].env[k[1]]
        S=b.mem.get(k[1])
        if not isinstance(S,CellS): return None
        e=S.cells.get(k[2])
        if e is None or e[0]!=k[3]: 
            try: return self.rdcell(b,self.objid(k[1]),S,k[2],k[3])
            except Unsupported: return None
        return e[1]
    def delta(self,nx,vr):
        cur=vr['cur']
        if vr['isptr']:
            if not isinstance(nx,Ptr) or nx.o is not vr['obj']: return None
            d=nx.off.add(cur.off,-1); return d.const
        if isinstance(nx,(Ptr,FnPtr)) or vr['w']==1: return None
        w=vr['w']
        if w==64: return lin(nx).add(lin(cur),-1).const
        if w>64: return None
        d=z3.simplify(bv(nx,w)-bv(cur,w))
        return d.as_long() if z3.is_bv_value(d) else None
    # candidate: dict(desc, fn: env-> z3 Bool) where env=(state, list of current var values, cnt)
    def gencands(self,entry,hs,vs,cnt,cmps,affine):
        out=[]
        syms=set()
        for vr in vs:
            c=vr['cur']
            z=c.off.z() if isinstance(c,Ptr) else c
            if not isc(z) and not isinstance(z,(FnPtr,bool)): self.leafs(z,syms)
        syms.add((cnt.arg(0) if cnt.num_args() else cnt).get_id())
        def invariant(x): 
            if isc(x): return True
            s=set(); self.leafs(x,s); return not(s&self.loopsyms)
        # symbols created inside this loop or later are not invariant: keep only symbols known at entry
        def cur(vr,env): 
            v=env['vals'][vr['key']]
            return v
        bounds={64:[],32:[],16:[],8:[]}
        def addb(w,x):
            if w not in bounds: return
            if any((isc(x) and isc(y) and x==y) or (not isc(x) and not isc(y) and x.eq(y)) for y in bounds[w]): return
            bounds[w].append(x)
        self.known=None
        ek=self.entrysyms(entry)
        for (w,a,b) in cmps:
            for x in(a,b):
                if isc(x):
                    if w in bounds: addb(w,x)
                    continue
                s=set(); self.leafs(x,s)
                if s<=ek: addb(w,x)
        for o in self.allobjs:
            if o.region is not None and o.id in entry.mem and not isc(o.count): addb(64,o.count)
            S=entry.mem.get(o.id)
            if isinstance(S,ArrS) and o.region is None and o.size.const is None:
                addb(64,o.size.z())
        for vr in vs:
            if vr['kind']!='int': continue
            i=vr['init']
            if isinstance(i,Ptr): addb(64,i.off.z())
            elif vr['w'] in bounds: addb(vr['w'],i)
        for w in bounds: addb(w,0)
        for w in bounds: bounds[w]=bounds[w][:14]
        addb(8,1)
        # a guard v<=B of a variable advancing by k leaves v<=B+k
        for vr in vs:
            k_=affine.get(vr['key']); w=64 if vr['isptr'] else vr['w']
            if k_ is None or w not in(32,64): continue
            k_=sx(k_,w)
            if abs(k_)<2: continue
            for b in list(bounds[w])[:8]:
                if not isc(b): addb(w,self.binop('add',b,k_&mask(w),w))
        # loop-variant terms
        terms=[('n',64,lambda e:e['n'])]
        for j,vr in enumerate(vs):
            if vr['kind']!='int': continue
            if vr['isptr']: 
                terms.append((f'off{j}',64,lambda e,vr=vr:e['vals'][vr['key']].off.z()))
            elif vr['w'] in(64,32,16,8):
                terms.append((f'v{j}',vr['w'],lambda e,vr=vr:e['vals'][vr['key']]))
        def add(desc,fn): out.append({'desc':desc,'fn':fn,'q':None})
        for nm,w,g in terms:
            for bi,b in enumerate(bounds.get(w,())):
                bs=str(b)[:40] if not isc(b) else str(b)
                add(f'{nm}<=u {bs}',lambda e,g=g,b=b,w=w: self.cmp('ule',g(e),b,w))
                add(f'{nm}>=u {bs}',lambda e,g=g,b=b,w=w: self.cmp('uge',g(e),b,w))
                if w<64 or True:
                    add(f'{nm}<=s {bs}',lambda e,g=g,b=b,w=w: self.cmp('sle',g(e),b,w))
                    add(f'{nm}>=s {bs}',lambda e,g=g,b=b,w=w: self.cmp('sge',g(e),b,w))
        # affine: n <= (B-init)/step
        for vr in vs:
            st_=affine.get(vr['key'])
            if st_ is None or st_==0 : continue
            w=64 if vr['isptr'] else vr['w']
            if w==64:
                i0=vr['init'].off if vr['isptr'] else lin(vr['init'])
                stp=sx(st_,64)
                for b in bounds[64]:
                    q=lin(b).add(i0,-1)
                    if stp<0: q=q.mul(-1)
                    qq=q.divby(abs(stp))
                    if qq is not None and qq[1]==0:
                        m=qq[0]
                        add(f'n<=u ({str(m.z())[:40]})',lambda e,m=m:self.cmp('ule',e['n'],m.z(),64))
                        add(f'n<u ({str(m.z())[:40]})',lambda e,m=m:self.cmp('ult',e['n'],m.z(),64))
                    elif abs(stp)>1 and abs(stp)&(abs(stp)-1)==0:
                        sh=abs(stp).bit_length()-1
                        # n <= ceil(q/step)
                        add(f'n<=u ceil(({str(q.z())[:40]})/{abs(stp)})',lambda e,q=q,sh=sh,stp=abs(stp): self.cmp('ule',e['n'],z3.LShR(bv(q.z(),64)+z3.BitVecVal(stp-1,64),z3.BitVecVal(sh,64)),64))
            elif w==32:
                stp=sx(st_,32)
                for b in bounds[32]:
                    if stp in(1,-1):
                        dd=z3.simplify(bv(b,32)-bv(vr['init'],32)) if stp==1 else z3.simplify(bv(vr['init'],32)-bv(b,32))
                        add(f'n<=u zext(({str(b)[:30]})-init)',lambda e,dd=dd:z3.ULE(bv(e['n'],64),z3.ZeroExt(32,dd)))
        # pairs
        vt=[t for t in terms if t[0]!='n' and True]
        for a in range(len(vt)):
            for b in range(len(vt)):
                if a==b or vt[a][1]!=vt[b][1]: continue
                na,w,ga=vt[a]; nb,_,gb=vt[b]
                add(f'{na}<=u {nb}',lambda e,ga=ga,gb=gb,w=w:self.cmp('ule',ga(e),gb(e),w))
                add(f'{na}<=s {nb}',lambda e,ga=ga,gb=gb,w=w:self.cmp('sle',ga(e),gb(e),w))
                if a<b:
                    add(f'{na}-{nb} const',lambda e,ga=ga,gb=gb,w=w:self.cmp('eq',self.binop('sub',ga(e),gb(e),w),self.binop('sub',ga(e['init']),gb(e['init']),w),w))
                    add(f'{na}+{nb} const',lambda e,ga=ga,gb=gb,w=w:self.cmp('eq',self.binop('add',ga(e),gb(e),w),self.binop('add',ga(e['init']),gb(e['init']),w),w))
                    for bb in bounds.get(w,())[:6]:
                        if isc(bb): continue
                        add(f'{na}+{nb}<=u {str(bb)[:30]}',lambda e,ga=ga,gb=gb,w=w,bb=bb:zand(self.cmp('ule',ga(e),bb,w),self.cmp('ule',gb(e),self.binop('sub',bb,ga(e),w),w)))
        for nm,w,g in terms:
            if nm!='n': add(f'{nm} unchanged',lambda e,g=g,w=w:self.cmp('eq',g(e),g(e['init']),w))
        for j,vr in enumerate(vs):
            if vr['kind']=='bool':
                add(f'b{j}',lambda e,vr=vr:e['vals'][vr['key']])
                add(f'!b{j}',lambda e,vr=vr:self.binop('xor',e['vals'][vr['key']],True,1))
        # user candidates
        ut=[]
        for nm,w,g in terms:
            if w==64: ut.append((nm,g))
            elif w<64: 
                ut.append((nm+'z',lambda e,g=g,w=w:(g(e) if isc(g(e)) else z3.ZeroExt(64-w,g(e)))))
                if w==32: ut.append((nm+'s',lambda e,g=g,w=w:(sx(g(e),w)&M64 if isc(g(e)) else z3.SignExt(64-w,g(e)))))
        # element index of pointers
        for j,vr in enumerate(vs):
            if vr['isptr'] and vr['obj'] is not None:
                S=entry.mem.get(vr['obj'].id)
                sd=S.stride if isinstance(S,ArrS) and S.stride else None
                if sd and sd>1:
                    def gi(e,vr=vr,sd=sd):
                        q=e['vals'][vr['key']].off.divby(sd)
                        if q is None: return z3.UDiv(bv(e['vals'][vr['key']].off.z(),64),z3.BitVecVal(sd,64))
                        return q[0].z()
                    ut.append((f'idx{j}',gi))
        # the next value of affine terms (loops rotated by the compiler test the incremented variable)
        if 'plain' in entry.opts:
          dup={'off'+x[0][3:] for x in ut if x[0].startswith('idx')}
          ut=[x for x in ut if x[0] not in dup]; ut=[x for x in ut if x[0]!='n' and x[0][-1]!='s'] or ut
        else:
          for nm,g in list(ut):
            for dl in (1,-1): ut.append((f'{nm}{dl:+d}',lambda e,g=g,dl=dl: self.binop('add',g(e),dl&M64,64)))
        # dedupe equal terms at the header
        seen={}; ut2=[]
        he={'vals':{v['key']:v['cur'] for v in vs},'n':cnt,'state':hs}
        for nm,g in ut:
            x=g(he); sz=x if isc(x) else z3.simplify(x); k=x if isc(x) else ('z',sz.get_id())
            self.keep.append(sz)
            if k in seen: continue
            seen[k]=1; ut2.append((nm,g))
        if 'noauto' in entry.opts: out=[]
        if 'outer' in entry.opts:   # variables of the enclosing loops
            for dp,ovs in enumerate(self.outer):
                for j,vr in enumerate(ovs):
                    if vr['kind']=='int' and not vr['isptr'] and vr['w']==64: ut2.append((f'vo{dp}_{j}',lambda e,c=vr['cur']:c))
        if cnt.num_args():
            out.append({'desc':'user narrowcnt','must':1,'q':None,'fn':lambda e:self.cmp('ule',e['n'],mask(entry.opts['narrowcnt']),64)})
        for j,vr in enumerate(vs):
            if 'narrow' in vr:
                out.append({'desc':f'user narrow{j}','must':1,'q':None,'fn':lambda e,vr=vr:self.cmp('ule',e['vals'][vr['key']] if not vr['isptr'] else (lambda q:q[0].z())(e['vals'][vr['key']].off.divby(vr['strided'][0])),mask(vr['narrow']),64)})
        fpc={}
        def fixedptrs(p):
            # pointers into the same object the loop does not change
            if p.o is None: return []
            if p.o.id in fpc: return fpc[p.o.id]
            S=entry.mem.get(p.o.id); sd=S.stride if isinstance(S,ArrS) else None; r={}
            for v in (list(entry.fr[-1].env.values()) if sd else ()):
                if isinstance(v,Ptr) and v.o is p.o and v.off.const is None and v.off.key()!=p.o.size.key():
                    q=v.off.divby(sd)
                    if q is not None and q[1]==0: r[q[0].key()]=q[0]
            fpc[p.o.id]=[(f'fix{j}',lambda e,x=x:x.z()) for j,(k,x) in enumerate(sorted(r.items(),key=lambda t:str(t[0]))[:4])]
            return fpc[p.o.id]
        for uc in entry.cands:
            kind,fn,ctx,ptr,ci=uc
            if kind==0: out.append({'desc':f'user{ci}','fn':lambda e,uc=uc:self.ucall(uc,e['state'],[0,0]),'q':None})
            elif kind==1:
                for nm,g in ut2: out.append({'desc':f'user{ci}({nm})','fn':lambda e,uc=uc,g=g:self.ucall(uc,e['state'],[g(e),0]),'q':None})
            elif kind==2:
                for nm,g in ut2:
                    for nm2,g2 in ut2:
                        if nm==nm2: continue
                        out.append({'desc':f'user{ci}({nm},{nm2})','fn':lambda e,uc=uc,g=g,g2=g2:self.ucall(uc,e['state'],[g(e),g2(e)]),'q':None})
            elif kind in(4,5,6,7,8):
                def into(nm,p): return nm.startswith('idx') and vs[int(re.match(r'idx(\d+)',nm)[1])]['obj'] is p.o
                ints=[x for x in ut2 if x[0][0]=='v']
                ps=lambda p:[x for x in ut2 if into(x[0],p)]+fixedptrs(p)
                if kind in(5,6):
                    for nm,g in (ps(ptr) if kind==5 else ints): out.append({'desc':f'user{ci}({nm})','fn':lambda e,uc=uc,g=g:self.ucall(uc,e['state'],[g(e),0]),'q':None})
                elif kind==8:
                    for tr in itertools.product(*(ps(p) for p in ptr)):
                        out.append({'desc':f'user{ci}({",".join(x[0] for x in tr)})','fn':lambda e,uc=uc,tr=tr:self.ucall(uc,e['state'],[g(e) for _,g in tr]),'q':None})
                else:
                    A,B=(ps(ptr),ints) if kind==4 else (ps(ptr[0]),ps(ptr[1]))
                    for nm,g in A:
                        for nm2,g2 in B: out.append({'desc':f'user{ci}({nm},{nm2})','fn':lambda e,uc=uc,g=g,g2=g2:self.ucall(uc,e['state'],[g(e),g2(e)]),'q':None})
            elif kind==3:
                for nm,g in ut2:
                    out.append({'desc':f'userK{ci}({nm})','fn':lambda e,k,uc=uc,g=g:self.ucall(uc,e['state'],[k,g(e)]),'q':ptr})
        return out
    def ucall(self,uc,state,args):
        kind,fn,ctx,ptr,ci=uc
        a=[ctx]+args+[0]*(3-len(args))
        return self.pure(fn,a[:4],state,1)
    def leafs(self,x,acc):
        st=[x]; seen=set()
        while st:
            y=st.pop()
            if isc(y) or isinstance(y,bool): continue
            i=y.get_id()
            if i in seen: continue
            seen.add(i)
            if y.num_args()==0:
                if y.decl().kind()==z3.Z3_OP_UNINTERPRETED: acc.add(i)
            else: 
                if y.decl().kind()==z3.Z3_OP_UNINTERPRETED: acc.add(('f',y.decl().get_id()))
                st.extend(y.children())
    def entrysyms(self,entry):
        acc=set()
        for f in entry.facts: self.leafs(f,acc)
        for fr in entry.fr:
            for v in fr.env.values():
                if isinstance(v,Ptr): 
                    z=v.off.z(); self.leafs(z,acc)
                elif isinstance(v,(FnPtr,list)) or v is None: pass
                else: self.leafs(v,acc)
        for o in self.allobjs:
            if o.id in entry.mem:
                z=o.size.z(); self.leafs(z,acc)
                S=entry.mem[o.id]
                if isinstance(S,CellS):
                    for n,v in S.cells.values():
                        if isinstance(v,Ptr): self.leafs(v.off.z(),acc)
                        elif not isinstance(v,FnPtr): self.leafs(v,acc)
                else:
                    bs=set()
                    for c in S.ch.values(): chain_bases(c,bs)
                    for b in bs: acc.add(('f',b.uf.get_id()))
        return acc
    loopsyms=set()
    def envat(self,state,vs,cnt,init):
        vals={}
        for vr in vs:
            nx=self.varnext(state,vr)
            vals[vr['key']]=nx
        e={'vals':vals,'n':cnt,'state':state}
        e['init']={'vals':{vr['key']:vr['init'] for vr in vs},'n':0,'state':None}
        return e
    def evalc(self,c,env,k=None):
        try:
            if c['q'] is None: return c['fn'](env)
            return c['fn'](env,k)
        except (Unsupported,AttributeError) as e:
            self.log('    candidate',c['desc'],'not evaluable:',e); return False
    def filter_entry(self,entry,vs,cnt,cands,hs):
        env=self.envat(entry,vs,0,None)
        live=[]; todo=[]
        for c in cands:
            k=self.sym('sk',64) if c['q'] is not None else None
            g=self.evalc(c,env,k)
            if g is True: live.append(c)
            elif g is False: pass
            else: todo.append((c,zb(g)))
        live+=[c for c,ok in self.houdini_query(entry.facts,todo) if ok]
        return live
    def houdini_query(self,facts,todo):
        """which goals follow from facts; -> [(c,ok)]"""
        user=[x for x in todo if x[0]['desc'].startswith(('user','rec'))]; auto=[x for x in todo if not x[0]['desc'].startswith(('user','rec'))]
        return self.hq(facts,auto,(0,3000))+self.hq(facts,user,(self.batch_to,8000))
    def hq(self,facts,todo,to):
        res=[]; cur=list(todo)
        while cur:
            self.tick()
            conj=z3.And(*[g for _,g in cur]) if len(cur)>1 else cur[0][1]
            r,m=self.decide(tuple(facts)+(z3.Not(conj),),(to[1] if len(cur)==1 else to[0] if len(cur)<=6 else 0)*self.tscale)
            if r=='unsat':
                res+=[(c,True) for c,_ in cur]; return res
            if r=='sat' and m is not None:
                nxt=[]
                for c,g in cur:
                    v=m.eval(g,model_completion=True)
                    if z3.is_false(v):
                        res.append((c,False))
                        if os.environ.get('VP_DROP'): self.log(f'      drop {c["desc"]} sat')
                    elif z3.is_true(v): nxt.append((c,g))
                    else: nxt.append((c,g))
                if len(nxt)<len(cur): cur=nxt; continue
            # unknown: split and retry
            if len(cur)>1:
                if len(cur)<=4: return res+[y for x in cur for y in self.hq(facts,[x],to)]
                h=len(cur)//2
                return res+self.hq(facts,cur[:h],to)+self.hq(facts,cur[h:],to)
            if os.environ.get('VP_DROP'): self.log(f'      drop {cur[0][0]["desc"]} {r}')
            res.append((cur[0][0],False)); return res
        return res
    def assume_cand(self,s,c,henv):
        e=henv(s)
        if c['q'] is None:
            g=self.evalc(c,e)
            s.add(zb(g))
        else:
            # quantified over the current contents of the object
            p=c['q']; S=s.mem.get(p.o.id)
            if not isinstance(S,ArrS): return
            bs=[ch for ch in S.ch.values() if isinstance(ch,Base) and ch in c['hb']]
            frozen=s.copy(); frozen.facts=(); frozen.writes=None
            e2=dict(e); e2['state']=frozen
            memo={}
            def inst(k,e2=e2,c=c,memo=memo):
                i=k.get_id()
                if i not in memo: memo[i]=(zb(self.evalc(c,e2,k)),k)
                return memo[i][0]
            for b in bs: b.quant.append(Quant(1,b,inst))
    def filter_back(self,backs,vs,cnt,live,hs,affine):
        drop=set()
        for b in backs:
            env=self.envat(b,vs,cnt+1,None)
            env['n']=lin(cnt).add(Lin(1,{})).z()
            todo=[]
            # structural: pointers stay in their objects
            for vr in vs:
                nx=env['vals'][vr['key']]
                if vr['kind']=='fixed':
                    same=(isinstance(nx,FnPtr) and isinstance(vr['cur'],FnPtr) and nx.f is vr['cur'].f) or (isinstance(nx,Ptr) and isinstance(vr['cur'],Ptr) and nx.o is vr['cur'].o and nx.off.key()==vr['cur'].off.key())
                    if not same: raise Unsupported('loop-carried pointer changes object')
                elif vr['isptr']:
                    if not isinstance(nx,Ptr) or nx.o is not vr['obj']:
                        if nx is None or (isc(nx)) : raise Unsupported('loop-carried pointer lost')
                        raise Unsupported('loop-carried pointer changes object')
                    if 'strided' in vr:
                        q=nx.off.divby(vr['strided'][0])
                        if q is None or q[1]!=vr['strided'][1]: raise Unsupported('a pointer leaves its element grid')
                elif isinstance(nx,(Ptr,FnPtr)): raise Unsupported('loop-carried value becomes pointer')
            for c in live:
                if id(c) in drop: continue
                k=self.sym('sk',64) if c['q'] is not None else None
                g=self.evalc(c,env,k)
                if g is True: continue
                if g is False: 
                    if self.feasible(b.facts): drop.add(id(c))
                    continue
                todo.append((c,zb(g)))
            for c,ok in self.houdini_query(b.facts,todo):
                if not ok: drop.add(id(c))
        return drop

def norm(d):
    import re
    return re.sub(r'!\d+','',d)
def zand(a,b):
    if a is True: return b
    if b is True: return a
    if a is False or b is False: return False
    return z3.And(a,b)

BUILTINS={}; BPREFIX=[]
def bi(*names):
    def d(f):
        for n in names: BUILTINS[n]=f
        return f
    return d
def bp(*names):
    def d(f):
        for n in names: BPREFIX.append((n,f))
        return f
    return d
import builtins_vp
builtins_vp.install(sys.modules[__name__])
