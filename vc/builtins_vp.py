"""Built-in functions: contract primitives, LLVM intrinsics, allocation."""
import z3
def install(S):
    bi,bp=S.bi,S.bp; Lin,lin,Ptr,NULL,ZERO=S.Lin,S.lin,S.Ptr,S.NULL,S.ZERO
    isc,mask,sx,bv,zb=S.isc,S.mask,S.sx,S.bv,S.zb
    Unsupported,PathEnd=S.Unsupported,S.PathEnd
    def ndname(E,st,p):
        n=E.cstr(p,st); k=st.occ.get(n,0); st.occ[n]=k+1
        return f'{n}#{k}'
    def ndadd(st,nm,item): st.occ['__order']=st.occ.get('__order',())+((nm,item),)
    @bi('vp_nd')
    def vp_nd(E,st,f,I,a):
        nm=ndname(E,st,a[0]); bits=a[1]; kind=a[2]
        if kind==3:
            b=z3.Bool(E.name(nm)); ndadd(st,nm,('v',b,1)); return z3.If(b,z3.BitVecVal(1,64),z3.BitVecVal(0,64))
        s=z3.BitVec(E.name(nm),bits); ndadd(st,nm,('v',s,bits))
        E.keep.append(s)
        if bits==64: return s
        return z3.SignExt(64-bits,s) if kind==1 else z3.ZeroExt(64-bits,s)
    @bi('vp_nd_range')
    def vp_nd_range(E,st,f,I,a):
        nm=ndname(E,st,a[0]); s=z3.BitVec(E.name(nm),64); ndadd(st,nm,('v',s,64))
        lo,hi=a[1],a[2]
        st.add(zb(E.cmp('sle',lo,s,64))); st.add(zb(E.cmp('sle',s,hi,64)))
        return s
    @bi('vp_nd_size')
    def vp_nd_size(E,st,f,I,a):
        nm=ndname(E,st,a[0]); hi=a[1]
        # a value below 2^b is a zero-extended b-bit symbol
        b=hi.bit_length() if isc(hi) and 0<hi<1<<63 else 64
        s=z3.BitVec(E.name(nm),b)
        if b<64: s=z3.ZeroExt(64-b,s)
        ndadd(st,nm,('v',s,64))
        if E.mode=='bmc' and isc(hi): hi=min(hi,E.size_cap or 40)
        st.add(zb(E.cmp('ule',s,hi,64)))
        return s
    @bi('vp_region')
    def vp_region(E,st,f,I,a):
        nm=ndname(E,st,a[0]); n=lin(a[1]); stride=a[2]; gp=a[3]; ng=a[4]
        if not isc(stride) or not isc(ng): raise Unsupported('vp_region layout')
        S0=st.mem.get(gp.o.id) or (E.gobj(gp.o.init,st) and st.mem[gp.o.id])
        g=[]
        for i in range(ng):
            row=[E.rdcell(st,gp.o,S0,gp.off.c+4*(3*i+k),4) for k in range(3)]
            g.append(tuple(row))
        if n.const is None:
            if E.mode=='bmc': st.add(z3.ULE(n.z(),z3.BitVecVal(E.size_cap or 40,64)))
            st.add(z3.ULE(n.z(),z3.BitVecVal(1<<41,64)))
        o=S.Obj(nm,n.mul(stride),64); E.allobjs.append(o); o.region=nm; o.count=n.z(); o.stride=stride
        ch={}; gl=[]
        for (c,w,k) in g:
            b=S.Base(E.name('R_%s_%d'%(nm,c)),w); b.region=o; ch[(c,w)]=b; gl.append((c,w,k,b))
            if k==3: b.quant.append(S.Quant(1,b,lambda i,b=b: z3.ULE(b.uf(i),z3.BitVecVal(1,8*b.w))))
        st.mem[o.id]=S.ArrS(stride,tuple((c,w) for c,w,k in g),ch,nm,'sym')
        ndadd(st,nm,('r',o,n.z(),stride,gl))
        return Ptr(o,ZERO)
    @bi('vp_next_new')
    def vp_next_new(E,st,f,I,a):
        p=E.toptr(a[0])
        if p.off.const!=0: raise Unsupported('vp_next_new')
        st.opts=dict(st.opts,nextnew=p)
        return None
    @bi('vp_bias')
    def vp_bias(E,st,f,I,a):
        # the elements of a fresh region are bias + a K-bit unsigned value
        o=a[0].o; K=a[2]; Sx=st.mem[o.id]; b,=Sx.ch.values()
        if b.w!=8 or b.memo or not isc(K): raise Unsupported('vp_bias')
        S.BASES.pop(b.uf.get_id()); nm=E.name(b.name+'_b')
        b.uf=z3.Function(nm,z3.BitVecSort(64),z3.BitVecSort(K)); S.BASES[b.uf.get_id()]=b; b.bias=lin(a[1]); b.k=K
        return None
    @bi('vp_assume')
    def vp_assume(E,st,f,I,a):
        c=a[0]
        if c is True: return None
        if c is False: raise PathEnd()
        st.add(c)
        if not E.inpure and not E.feasible(st.facts): raise PathEnd()
        return None
    @bi('vp_assert')
    def vp_assert(E,st,f,I,a):
        E.obligation(st,a[0],E.cstr(a[1],st),'post',I.loc)
        return None
    @bi('vp_cover')
    def vp_cover(E,st,f,I,a):
        if E.dry: return None
        l=E.cstr(a[0],st)
        if E.covers.get(l)!='sat':
            r,m=E.prove(st.facts,False,timeout=20000)
            E.covers[l]=r if E.covers.get(l)!='sat' else 'sat'
        return None
    @bi('vp_opt')
    def vp_opt(E,st,f,I,a):
        s=E.cstr(a[0],st); st.opts=dict(st.opts)
        k,_,v=s.partition('='); st.opts[k]=int(v) if v else 1
        if k=='nofp' and E.mode!='bmc': E.nofp=S.Abstract(fponly=True)
        return None
    @bi('vp_cand')
    def vp_cand(E,st,f,I,a):
        kind,fn,ctx,ptr=a
        if kind in(7,8):
            o=ptr.o; c=ptr.off.const
            ptr=[E.rdcell(st,o,st.mem[o.id],c+8*j,8) for j in range(kind-5)]
        st.cands=st.cands+((kind,fn.f,ctx,ptr,len(st.cands)),)
        return None
    @bi('vp_forall')
    def vp_forall(E,st,f,I,a):
        ar,reg,n,fn,ctx=a
        So=st.mem[reg.o.id]
        frozen=st.copy(); frozen.facts=(); frozen.writes=None
        bases=set()
        for c in So.ch.values(): S.chain_bases(c,bases)
        memo={}
        ro=reg.off.divby(So.stride)[0] if So.stride else ZERO
        def in1(idx):
            i=idx.get_id()
            if i not in memo:
                ix=lin(idx).add(ro,-1).z()
                g=zb(E.pure(fn.f,[ctx,ix,0,0],frozen,1))
                memo[i]=(z3.Implies(z3.ULT(bv(ix,64),bv(n,64)),g),idx)
            return memo[i][0]
        def in2(x,y):
            i=(x.get_id(),y.get_id())
            if i not in memo:
                xx,yy=lin(x).add(ro,-1).z(),lin(y).add(ro,-1).z()
                g=zb(E.pure(fn.f,[ctx,xx,yy,0],frozen,1))
                memo[i]=(z3.Implies(z3.And(z3.ULT(bv(xx,64),bv(yy,64)),z3.ULT(bv(yy,64),bv(n,64))),g),x,y)
            return memo[i][0]
        for b in bases: b.quant.append(S.Quant(ar,b,in1 if ar==1 else in2))
        E.resetinc()
        return None
    @bi('vp_lemma')
    def vp_lemma(E,st,f,I,a): return None
    @bi('__vp_check_fail','abort','_ZSt9terminatev','__cxa_throw','__cxa_bad_cast','_ZSt20__throw_length_errorPKc','_ZSt17__throw_bad_allocv','_ZSt28__throw_bad_array_new_lengthv','_ZSt24__throw_out_of_range_fmtPKcz','_ZSt19__throw_logic_errorPKc','_ZSt25__throw_bad_function_callv','__cxa_pure_virtual','_ZSt20__throw_out_of_rangePKc')
    def fail(E,st,f,I,a):
        E.obligation(st,False,'no '+I.x['callee'][1].name,'ub',I.loc); raise PathEnd()
    @bi('llvm.ubsantrap','llvm.trap','llvm.debugtrap')
    def trap(E,st,f,I,a):
        E.obligation(st,False,'no trap %s'%(a[0] if a else ''),'ub',I.loc); raise PathEnd()
    @bi('llvm.assume')
    def assume(E,st,f,I,a):
        E.obligation(st,a[0],'builtin assume','ub',I.loc); return None
    @bp('llvm.expect')
    def expect(E,st,f,I,a): return a[0]
    @bp('llvm.is.constant')
    def isconst(E,st,f,I,a): return False
    @bp('llvm.objectsize')
    def objsize(E,st,f,I,a): return mask(64)
    @bp('llvm.invariant','llvm.donothing','llvm.prefetch','llvm.stackrestore','llvm.sideeffect','llvm.va_')
    def nop(E,st,f,I,a): return NULL if I.ty.k=='ptr' else None
    @bp('llvm.stacksave','llvm.launder','llvm.strip')
    def ss(E,st,f,I,a): return a[0] if a else NULL
    @bp('llvm.memset')
    def memset(E,st,f,I,a): E.memset(st,E.toptr(a[0]),a[1],a[2],I.loc); return None
    @bi('memset')
    def memset2(E,st,f,I,a):
        v=a[1]; v=v&255 if isc(v) else z3.Extract(7,0,v)
        E.memset(st,E.toptr(a[0]),v,a[2],I.loc); return a[0]
    @bp('llvm.memcpy')
    def memcpy(E,st,f,I,a): E.memcpy(st,E.toptr(a[0]),E.toptr(a[1]),a[2],I.loc); return None
    @bp('llvm.memmove')
    def memmove(E,st,f,I,a): E.memcpy(st,E.toptr(a[0]),E.toptr(a[1]),a[2],I.loc,True); return None
    @bi('memcpy','memmove')
    def memcpy2(E,st,f,I,a): E.memcpy(st,E.toptr(a[0]),E.toptr(a[1]),a[2],I.loc,True); return a[0]
    @bp('llvm.sadd.with','llvm.ssub.with','llvm.smul.with','llvm.uadd.with','llvm.usub.with','llvm.umul.with')
    def ovf(E,st,f,I,a):
        n=I.x['callee'][1].name; op=n[6:9]; sg=n[5]=='s'; w=I.ty.els[0].w
        x,y=E.toint(a[0],w,st),E.toint(a[1],w,st)
        r=E.binop(op,x,y,w)
        if isc(x) and isc(y):
            X,Y=(sx(x,w),sx(y,w)) if sg else (x,y)
            v={'add':X+Y,'sub':X-Y,'mul':X*Y}[op]
            o=not(-(1<<(w-1))<=v<(1<<(w-1))) if sg else not(0<=v<=mask(w))
            return [r,o]
        A,B=bv(x,w),bv(y,w); R=bv(r,w); z=z3.BitVecVal(0,w)
        if op=='add': o=z3.Or(z3.And(A>=z,B>=z,R<z),z3.And(A<z,B<z,R>=z)) if sg else z3.ULT(R,A)
        elif op=='sub': o=z3.Or(z3.And(A>=z,B<z,R<z),z3.And(A<z,B>=z,R>=z)) if sg else z3.ULT(A,B)
        elif 'wide_mul' in st.opts:
            X=(z3.SignExt if sg else z3.ZeroExt)(w,A)*(z3.SignExt if sg else z3.ZeroExt)(w,B); r=z3.Extract(w-1,0,X)
            o=X!=(z3.SignExt if sg else z3.ZeroExt)(w,r)
        else: o=z3.Not(z3.And(z3.BVMulNoOverflow(A,B,sg),z3.BVMulNoUnderflow(A,B))) if sg else z3.Not(z3.BVMulNoOverflow(A,B,False))
        return [r,o]
    @bp('llvm.uadd.sat','llvm.usub.sat','llvm.sadd.sat','llvm.ssub.sat')
    def sat(E,st,f,I,a):
        n=I.x['callee'][1].name; w=I.ty.w; A,B=bv(a[0],w),bv(a[1],w)
        if 'uadd' in n: return z3.If(z3.ULT(A+B,A),z3.BitVecVal(mask(w),w),A+B)
        if 'usub' in n: return z3.If(z3.ULT(A,B),z3.BitVecVal(0,w),A-B)
        raise Unsupported(n)
    @bp('llvm.umin','llvm.umax','llvm.smin','llvm.smax')
    def mm(E,st,f,I,a):
        n=I.x['callee'][1].name[5:9]; w=I.ty.w
        c=E.cmp({'umin':'ule','umax':'uge','smin':'sle','smax':'sge'}[n],a[0],a[1],w)
        if 'selects' in st.opts and not E.inpure and w>=32 and not isinstance(c,bool):
            ok=[(x,v) for x,v in((c,a[0]),(z3.Not(c),a[1])) if E.feasible(st.facts,x)]; out=[]
            for k,(x,v) in enumerate(ok):
                s=st.copy() if k<len(ok)-1 else st
                s.add(x); s.fr[-1].env[I.id]=v; out.append(('cont',s))
            return ('fork',out)
        return S.ite(c,a[0],a[1],w)
    @bp('llvm.abs.')
    def iabs(E,st,f,I,a):
        w=I.ty.w
        if isc(a[0]): return abs(sx(a[0],w))&mask(w)
        return z3.If(a[0]<0,-a[0],a[0])
    @bp('llvm.fabs.')
    def fabs(E,st,f,I,a): return E.binop('and',a[0],mask(I.ty.w-1),I.ty.w)
    @bp('llvm.copysign.')
    def csign(E,st,f,I,a):
        w=I.ty.w; return E.binop('or',E.binop('and',a[0],mask(w-1),w),E.binop('and',a[1],1<<(w-1),w),w)
    @bp('llvm.floor.','llvm.ceil.','llvm.trunc.','llvm.rint.','llvm.nearbyint.','llvm.roundeven.','llvm.round.')
    def fround(E,st,f,I,a):
        n=I.x['callee'][1].name.split('.')[1]; w=I.ty.w
        m={'floor':z3.RTN(),'ceil':z3.RTP(),'trunc':z3.RTZ(),'rint':z3.RNE(),'nearbyint':z3.RNE(),'roundeven':z3.RNE(),'round':z3.RNA()}[n]
        return E.fpbv(z3.fpRoundToIntegral(m,E.fp(a[0],w)),w)
    @bp('llvm.is.fpclass')
    def fpclass(E,st,f,I,a):
        t=I.x['args'][0]; w=t.w; m=a[1]; A,mag,nan=E.fcls(a[0],w)
        mb=52 if w==64 else 23; inf=z3.BitVecVal(((1<<(w-1-mb))-1)<<mb,w); neg=A<z3.BitVecVal(0,w); z=z3.BitVecVal(0,w); mn=z3.BitVecVal(1<<mb,w)
        cls=[(0x3,nan),(0x4,z3.And(neg,mag==inf)),(0x8,z3.And(neg,z3.UGE(mag,mn),z3.ULT(mag,inf))),(0x10,z3.And(neg,z3.ULT(mag,mn),mag!=z)),(0x20,z3.And(neg,mag==z)),(0x40,z3.And(z3.Not(neg),mag==z)),(0x80,z3.And(z3.Not(neg),z3.ULT(mag,mn),mag!=z)),(0x100,z3.And(z3.Not(neg),z3.UGE(mag,mn),z3.ULT(mag,inf))),(0x200,z3.And(z3.Not(neg),mag==inf))]
        return z3.simplify(z3.Or(*[c for b,c in cls if m&b]))
    @bp('llvm.sqrt','llvm.exp','llvm.log','llvm.pow','llvm.sin','llvm.cos','llvm.fma.','llvm.fmuladd','llvm.minnum','llvm.maxnum','llvm.minimum','llvm.maximum')
    def fun(E,st,f,I,a):
        n=I.x['callee'][1].name
        if n.startswith('llvm.fmuladd'): return E.uff('fadd%d'%I.ty.w,I.ty.w,E.uff('fmul%d'%I.ty.w,I.ty.w,a[0],a[1],st=st),a[2],st=st)
        return E.uff(n,I.ty.w,*a)
    def popc(x,w):
        r=z3.BitVecVal(0,w); 
        # SWAR
        if w in(32,64):
            m1=int('55'*(w//8),16); m2=int('33'*(w//8),16); m4=int('0f'*(w//8),16)
            x=x-(z3.LShR(x,1)&m1); x=(x&m2)+(z3.LShR(x,2)&m2); x=(x+z3.LShR(x,4))&m4
            s=8
            while s<w: x=x+z3.LShR(x,s); s*=2
            return x&(2*w-1)
        for i in range(w): r=r+z3.ZeroExt(w-1,z3.Extract(i,i,x))
        return r
    @bp('llvm.ctpop.')
    def ctpop(E,st,f,I,a):
        w=I.ty.w
        if isc(a[0]): return bin(a[0]).count('1')
        return popc(a[0],w)
    @bp('llvm.cttz.')
    def cttz(E,st,f,I,a):
        w=I.ty.w; x=a[0]
        if a[1] is True: E.obligation(st,E.cmp('ne',x,0,w),'ctz of zero','ub',I.loc)
        if isc(x): return w if x==0 else (x&-x).bit_length()-1
        r=z3.BitVecVal(w,w)
        for i in range(w-1,-1,-1): r=z3.If(z3.Extract(i,i,x)==1,z3.BitVecVal(i,w),r)
        return r
    @bp('llvm.ctlz.')
    def ctlz(E,st,f,I,a):
        w=I.ty.w; x=a[0]
        if a[1] is True: E.obligation(st,E.cmp('ne',x,0,w),'clz of zero','ub',I.loc)
        if isc(x): return w-x.bit_length()
        r=z3.BitVecVal(w,w)
        for i in range(w): r=z3.If(z3.Extract(i,i,x)==1,z3.BitVecVal(w-1-i,w),r)
        return r
    @bp('llvm.bswap.')
    def bswap(E,st,f,I,a):
        w=I.ty.w; x=bv(a[0],w); return z3.Concat(*[z3.Extract(8*i+7,8*i,x) for i in range(w//8)])
    @bp('llvm.bitreverse.')
    def brev(E,st,f,I,a):
        w=I.ty.w; x=bv(a[0],w); return z3.Concat(*[z3.Extract(i,i,x) for i in range(w)])
    @bp('llvm.fshl.','llvm.fshr.')
    def fsh(E,st,f,I,a):
        w=I.ty.w; n=I.x['callee'][1].name; k=a[2]
        c=z3.Concat(bv(a[0],w),bv(a[1],w)); k2=z3.ZeroExt(w,bv(k%w if isc(k) else z3.URem(k,z3.BitVecVal(w,w)),w))
        return z3.Extract(2*w-1,w,c<<k2) if 'fshl' in n else z3.Extract(w-1,0,z3.LShR(c,k2))
    @bp('llvm.load.relative','llvm.vector.reduce')
    def unsup(E,st,f,I,a): raise Unsupported(I.x['callee'][1].name)
    def alloc(E,st,n,nm,al=16):
        n=lin(n)
        return Ptr(E.newobj(st,nm,n.z() if n.const is None else n.c,al,'undef',True),ZERO)
    @bi('_Znwm','_Znam','malloc','vp_alloc')
    def new(E,st,f,I,a):
        n=a[0]
        p=st.opts.get('nextnew')
        if p is not None and I.x['callee'][1].name=='_Znwm':
            # the region named by vp_next_new, as the fresh block of this one allocation
            if st.writes is not None: raise Unsupported('vp_next_new used within a loop')
            st.opts={k:v for k,v in st.opts.items() if k!='nextnew'}
            E.obligation(st,E.cmp('ule',n,p.o.size.z(),64),'the block named for an allocation is large enough','mem',I.loc)
            p.o.heap=True
            return p
        if not isc(n): st.add(z3.ULE(n,z3.BitVecVal(1<<46,64)))
        return alloc(E,st,n,'heap')
    @bi('_ZnwmSt11align_val_t','_ZnamSt11align_val_t')
    def newal(E,st,f,I,a): return alloc(E,st,a[0],'heap',a[1] if isc(a[1]) else 16)
    @bi('_ZdlPv','_ZdaPv','_ZdlPvm','_ZdaPvm','free','_ZdlPvSt11align_val_t','_ZdlPvmSt11align_val_t')
    def delete(E,st,f,I,a):
        p=E.toptr(a[0])
        if p.o is None: return None
        Sx=st.mem.get(p.o.id)
        E.obligation(st,Sx is not None and Sx.alive and p.off.const==0 and p.o.heap,'valid deallocation of '+p.o.name,'mem',I.loc)
        T=Sx.copy(); T.alive=False; st.mem[p.o.id]=T
        if st.writes is not None: st.writes.add((p.o.id,'free'))
        return None
    @bi('__cxa_atexit','__cxa_guard_release','__cxa_guard_acquire')
    def cxa(E,st,f,I,a): return 1
    @bi('memcmp','bcmp')
    def memcmp(E,st,f,I,a):
        n=a[2]
        if isc(n) and n==0: return 0
        if not isc(n): raise Unsupported('memcmp with symbolic length')
        r=0; p,q=E.toptr(a[0]),E.toptr(a[1])
        res=0
        T=type('T',(),{})()
        i8=[t for t in E.mod.tcache.values() if t.k=='int' and t.w==8][0]
        for i in range(n-1,-1,-1):
            x=bv(E.load(st,Ptr(p.o,p.off.add(Lin(i,{}))),i8,I.loc),8); y=bv(E.load(st,Ptr(q.o,q.off.add(Lin(i,{}))),i8,I.loc),8)
            res=z3.If(x==y,bv(res,32),z3.If(z3.ULT(x,y),z3.BitVecVal(mask(32),32),z3.BitVecVal(1,32)))
        return res
    @bi('strlen')
    def strlen(E,st,f,I,a):
        return len(E.cstr(a[0],st))
