"""Loads LLVM bitcode through the LLVM-C API (ctypes) into plain Python objects."""
import ctypes as C, struct
L = C.CDLL("libLLVM-18.so")
P = C.c_void_p
def _f(name, res, *args):
    f = getattr(L, name); f.restype = res; f.argtypes = list(args); return f
CreateBuf=_f('LLVMCreateMemoryBufferWithContentsOfFile',C.c_int,C.c_char_p,C.POINTER(P),C.POINTER(C.c_char_p))
ParseIR=_f('LLVMParseIRInContext',C.c_int,P,P,C.POINTER(P),C.POINTER(C.c_char_p))
CtxCreate=_f('LLVMContextCreate',P)
DataLayout=_f('LLVMGetModuleDataLayout',P,P)
FirstFn=_f('LLVMGetFirstFunction',P,P); NextFn=_f('LLVMGetNextFunction',P,P)
FirstGl=_f('LLVMGetFirstGlobal',P,P); NextGl=_f('LLVMGetNextGlobal',P,P)
FirstAl=_f('LLVMGetFirstGlobalAlias',P,P); NextAl=_f('LLVMGetNextGlobalAlias',P,P)
Aliasee=_f('LLVMAliasGetAliasee',P,P)
FirstBB=_f('LLVMGetFirstBasicBlock',P,P); NextBB=_f('LLVMGetNextBasicBlock',P,P)
FirstI=_f('LLVMGetFirstInstruction',P,P); NextI=_f('LLVMGetNextInstruction',P,P)
Opc=_f('LLVMGetInstructionOpcode',C.c_int,P)
NOps=_f('LLVMGetNumOperands',C.c_int,P); Op=_f('LLVMGetOperand',P,P,C.c_uint)
TypeOf=_f('LLVMTypeOf',P,P); TKind=_f('LLVMGetTypeKind',C.c_int,P)
IntW=_f('LLVMGetIntTypeWidth',C.c_uint,P)
StNum=_f('LLVMCountStructElementTypes',C.c_uint,P); StAt=_f('LLVMStructGetTypeAtIndex',P,P,C.c_uint)
ArrLen=_f('LLVMGetArrayLength2',C.c_uint64,P); VecSz=_f('LLVMGetVectorSize',C.c_uint,P); ElTy=_f('LLVMGetElementType',P,P)
AbiSz=_f('LLVMABISizeOfType',C.c_ulonglong,P,P); OffEl=_f('LLVMOffsetOfElement',C.c_ulonglong,P,P,C.c_uint)
StoreSz=_f('LLVMStoreSizeOfType',C.c_ulonglong,P,P)
VKind=_f('LLVMGetValueKind',C.c_int,P)
VName=_f('LLVMGetValueName2',C.c_char_p,P,C.POINTER(C.c_size_t))
ConstZ=_f('LLVMConstIntGetZExtValue',C.c_ulonglong,P)
IsNull=_f('LLVMIsNull',C.c_int,P)
ConstOpc=_f('LLVMGetConstOpcode',C.c_int,P)
IsConst=_f('LLVMIsConstant',C.c_int,P)
GlInit=_f('LLVMGetInitializer',P,P); GlConst=_f('LLVMIsGlobalConstant',C.c_int,P); GlTy=_f('LLVMGlobalGetValueType',P,P)
IsDecl=_f('LLVMIsDeclaration',C.c_int,P)
ICmpP=_f('LLVMGetICmpPredicate',C.c_int,P); FCmpP=_f('LLVMGetFCmpPredicate',C.c_int,P)
NIn=_f('LLVMCountIncoming',C.c_uint,P); InV=_f('LLVMGetIncomingValue',P,P,C.c_uint); InB=_f('LLVMGetIncomingBlock',P,P,C.c_uint)
CalledV=_f('LLVMGetCalledValue',P,P); NArgs=_f('LLVMGetNumArgOperands',C.c_uint,P)
NSucc=_f('LLVMGetNumSuccessors',C.c_uint,P); Succ=_f('LLVMGetSuccessor',P,P,C.c_uint)
GepTy=_f('LLVMGetGEPSourceElementType',P,P)
NIdx=_f('LLVMGetNumIndices',C.c_uint,P); Idxs=_f('LLVMGetIndices',C.POINTER(C.c_uint),P)
AllocTy=_f('LLVMGetAllocatedType',P,P)
NParams=_f('LLVMCountParams',C.c_uint,P); Param=_f('LLVMGetParam',P,P,C.c_uint)
RMWop=_f('LLVMGetAtomicRMWBinOp',C.c_int,P)
DLine=_f('LLVMGetDebugLocLine',C.c_uint,P); DFile=_f('LLVMGetDebugLocFilename',C.c_char_p,P,C.POINTER(C.c_uint))
AggEl=_f('LLVMGetAggregateElement',P,P,C.c_uint)
BBTerm=_f('LLVMGetBasicBlockTerminator',P,P)
AsBB=_f('LLVMValueAsBasicBlock',P,P)
PrintV=_f('LLVMPrintValueToString',C.c_char_p,P)
RealBits=_f('LLVMConstRealGetDouble',C.c_double,P,C.POINTER(C.c_int))
Align=_f('LLVMGetAlignment',C.c_uint,P)
IsStr=_f('LLVMIsConstantString',C.c_int,P); GetStr=_f('LLVMGetAsString',P,P,C.POINTER(C.c_size_t))
Disjoint=_f('LLVMGetIsDisjoint',C.c_int,P)
NMask=_f('LLVMGetNumMaskElements',C.c_uint,P); MaskV=_f('LLVMGetMaskValue',C.c_int,P,C.c_uint)
HasAttr=_f('LLVMGetCallSiteEnumAttribute',P,P,C.c_int,C.c_uint); AttrKind=_f('LLVMGetEnumAttributeKindForName',C.c_uint,C.c_char_p,C.c_size_t)
GetFnAttr=_f('LLVMGetEnumAttributeAtIndex',P,P,C.c_int,C.c_uint)

OPN={1:'ret',2:'br',3:'switch',5:'invoke',7:'unreachable',66:'fneg',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',68:'freeze',55:'fence',56:'cmpxchg',57:'atomicrmw',58:'resume',59:'landingpad',60:'addrspacecast'}
ICMP={32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCMP=['false','oeq','ogt','oge','olt','ole','one','ord','uno','ueq','ugt','uge','ult','ule','une','true']
RMW=['xchg','add','sub','and','nand','or','xor','max','min','umax','umin']

class Ty:
    __slots__=('k','w','n','els','offs','size','el','store')
    def __repr__(s): return f"<{s.k}{s.w or ''}>"

class Inst:
    __slots__=('id','op','ty','ops','x','loc','ptr')
    def __repr__(s): return f"{s.op}@{s.loc}"

class Block:
    __slots__=('id','insts','preds','succs','fn','idx','phis','trap')

class Func:
    __slots__=('name','params','blocks','entry','loops','ret','bmap','parsed','ptr','mod','ptypes')

class Global:
    __slots__=('name','ty','init','const','ptr')

class Loop:
    __slots__=('header','blocks','depth','fn','exits')

class Module:
    def __init__(self, path):
        self.ctx=CtxCreate(); buf=P(); err=C.c_char_p()
        if CreateBuf(path.encode(),C.byref(buf),C.byref(err)): raise RuntimeError(err.value)
        m=P()
        if ParseIR(self.ctx,buf,C.byref(m),C.byref(err)): raise RuntimeError(err.value)
        self.m=m; self.dl=DataLayout(m); self.tcache={}; self.funcs={}; self.globals={}; self.fbyptr={}; self.gbyptr={}
        f=FirstFn(m)
        while f:
            fn=Func(); fn.ptr=f; fn.name=self.name(f); fn.parsed=False; fn.mod=self; fn.blocks=None
            self.funcs[fn.name]=fn; self.fbyptr[f]=fn
            f=NextFn(f)
        g=FirstGl(m)
        while g:
            G=Global(); G.ptr=g; G.name=self.name(g); G.ty=self.ty(GlTy(g)); G.const=bool(GlConst(g)); G.init=None
            self.globals[G.name]=G; self.gbyptr[g]=G
            g=NextGl(g)
        a=FirstAl(m)
        while a:
            t=Aliasee(a)
            if t in self.fbyptr: self.fbyptr[a]=self.fbyptr[t]; self.funcs[self.name(a)]=self.fbyptr[t]
            elif t in self.gbyptr: self.gbyptr[a]=self.gbyptr[t]
            a=NextAl(a)
        self.loopcounter=0
        self.k_sret=AttrKind(b'sret',4); self.k_noreturn=AttrKind(b'noreturn',8)
    def name(self,v):
        n=C.c_size_t(); s=VName(v,C.byref(n)); return s.decode('latin1') if s else ''
    def ty(self,t):
        r=self.tcache.get(t)
        if r: return r
        r=Ty(); r.w=None; r.n=None; r.els=None; r.offs=None; r.el=None
        self.tcache[t]=r
        k=TKind(t)
        r.k={0:'void',1:'half',2:'float',3:'float',4:'x86fp80',7:'label',8:'int',9:'func',10:'struct',11:'array',12:'ptr',13:'vec'}.get(k,'other%d'%k)
        r.size=0
        if r.k not in('void','label','func') and not r.k.startswith('other'):
            r.size=AbiSz(self.dl,t); r.store=StoreSz(self.dl,t)
        if k==2: r.w=32
        elif k==3: r.w=64
        elif k==4: r.w=80
        elif k==8: r.w=IntW(t)
        elif k==10:
            r.els=[self.ty(StAt(t,i)) for i in range(StNum(t))]
            r.offs=[OffEl(self.dl,t,i) for i in range(len(r.els))]
        elif k==11: r.n=ArrLen(t); r.el=self.ty(ElTy(t))
        elif k==13: r.n=VecSz(t); r.el=self.ty(ElTy(t))
        return r
    # operand encodings: ('v',id) | ('i',w,int) | ('f',w,bits) | ('null',) | ('undef',ty) | ('g',Global,off) | ('fn',Func) | ('agg',[...]) | ('ce',op,...) | ('bb',Block)
    def operand(self,v):
        k=VKind(v)
        # LLVMValueKind: Argument 0, BasicBlock 1, ..., Function 5, GlobalAlias 6, IFunc 7, GlobalVariable 8, BlockAddress 9, ConstantExpr 10, Array 11, Struct 12, Vector 13, Undef 14, AggZero 15, DataArray 16, DataVector 17, Int 18, FP 19, PtrNull 20, TokenNone 21, MetadataAsValue 22, InlineAsm 23, Instruction 24, Poison 25
        if k in (0,24): return ('v',v)
        ty=self.ty(TypeOf(v))
        if k==18:
            if ty.w<=64: return ('i',ty.w,ConstZ(v)&((1<<ty.w)-1))
            s=PrintV(v).decode().split()[-1]; return ('i',ty.w,int(s)&((1<<ty.w)-1))
        if k==19:
            lost=C.c_int(); d=RealBits(v,C.byref(lost))
            if ty.w==64: return ('f',64,struct.unpack('<Q',struct.pack('<d',d))[0])
            return ('f',32,struct.unpack('<I',struct.pack('<f',d))[0])
        if k==20: return ('null',)
        if k in(14,25): return ('undef',ty)
        if k==5 or (k==6 and v in self.fbyptr): return ('fn',self.fbyptr[v])
        if k==8 or (k==6 and v in self.gbyptr): return ('g',self.gbyptr[v],0)
        if k==15: return ('zero',ty)
        if k in(11,12,13): return ('agg',ty,[self.operand(Op(v,i)) for i in range(NOps(v))])
        if k in(16,17):
            if k==16 and IsStr(v):
                n=C.c_size_t(); p=GetStr(v,C.byref(n)); return ('bytes',ty,C.string_at(p,n.value))
            return ('agg',ty,[self.operand(AggEl(v,i)) for i in range(ty.n)])
        if k==10:
            op=OPN.get(ConstOpc(v),'?')
            ops=[self.operand(Op(v,i)) for i in range(NOps(v))]
            if op=='gep':
                return ('cegep',ops[0],self.gepx(v))
            return ('ce',op,ty,ops)
        if k==1: return ('bb',v)
        if k==22: return ('md',)
        return ('other',k)
    def gepx(self,v):
        """-> (const_offset, [(scale, operand)])"""
        t=self.ty(GepTy(v)); const=0; terms=[]
        n=NOps(v)
        for i in range(1,n):
            o=self.operand(Op(v,i))
            if i==1: sc=t.size; cur=t
            else:
                if cur.k=='struct':
                    idx=o[2]; const+=cur.offs[idx]; cur=cur.els[idx]; continue
                cur=cur.el; sc=cur.size
            if o[0]=='i':
                x=o[2]; 
                if x>>(o[1]-1): x-=1<<o[1]
                const+=sc*x
            else: terms.append((sc,o,self.ty(TypeOf(Op(v,i))).w))
        return (const,terms)
    def parse(self,fn):
        if fn.parsed: return fn
        fn.parsed=True; f=fn.ptr
        fn.params=[]; fn.ptypes=[]
        for i in range(NParams(f)):
            p=Param(f,i); fn.params.append(p); fn.ptypes.append(self.ty(TypeOf(p)))
        fn.blocks=[]; fn.bmap={}
        if IsDecl(f): return fn
        b=FirstBB(f)
        while b:
            B=Block(); B.id=b; B.insts=[]; B.preds=[]; B.succs=[]; B.fn=fn; B.idx=len(fn.blocks); B.phis=[]; B.trap=False
            fn.blocks.append(B); fn.bmap[b]=B; b=NextBB(b)
        for B in fn.blocks:
            i=FirstI(B.id)
            while i:
                I=self.inst(i,fn)
                if I is not None:
                    (B.phis if I.op=='phi' else B.insts).append(I)
                i=NextI(i)
            T=B.insts[-1]
            if T.op in('br','switch'):
                for s in T.x['succ']:
                    if s not in B.succs: B.succs.append(s)
            elif T.op=='unreachable':
                B.trap=all(I.op in('unreachable',) or (I.op=='call') for I in B.insts)
        for B in fn.blocks:
            for s in B.succs: s.preds.append(B)
        fn.entry=fn.blocks[0]
        self.findloops(fn)
        return fn
    def inst(self,v,fn):
        o=OPN.get(Opc(v))
        I=Inst(); I.id=v; I.op=o or ('?%d'%Opc(v)); I.ty=self.ty(TypeOf(v)); I.x=None; I.ptr=v
        n=C.c_uint(); fl=DFile(v,C.byref(n)); I.loc=((fl.decode().split('/')[-1] if fl else '?'),DLine(v)) if fl else ('?',0)
        if o=='call' or o=='invoke':
            cv=CalledV(v); na=NArgs(v)
            I.ops=[self.operand(Op(v,i)) for i in range(na)]
            I.x={'callee':self.operand(cv),'args':[self.ty(TypeOf(Op(v,i))) for i in range(na)]}
            c=I.x['callee']
            if c[0]=='fn' and (c[1].name.startswith('llvm.dbg') or c[1].name.startswith('llvm.lifetime') or c[1].name.startswith('llvm.experimental.noalias')): return None
            return I
        if o=='phi':
            I.ops=[]; I.x=[(fn.bmap[InB(v,i)],self.operand(InV(v,i))) for i in range(NIn(v))]; return I
        if o=='br':
            ns=NSucc(v); ss=[fn.bmap[Succ(v,i)] for i in range(ns)]
            I.ops=[self.operand(Op(v,0))] if ns==2 else []; I.x={'succ':ss}; return I
        if o=='switch':
            I.ops=[self.operand(Op(v,0))]; nops=NOps(v)
            cases=[(self.operand(Op(v,i))[2],fn.bmap[AsBB(Op(v,i+1))]) for i in range(2,nops,2)]
            d=fn.bmap[AsBB(Op(v,1))]
            I.x={'default':d,'cases':cases,'succ':[d]+[c[1] for c in cases]}; return I
        I.ops=[self.operand(Op(v,i)) for i in range(NOps(v))]
        if o=='or' and I.ty.w==64 and Disjoint(v) and (I.ops[1][0]=='i' or I.ops[0][0]=='i'): I.op='add'
        if o=='gep': I.x=self.gepx(v)
        elif o=='icmp': I.x=ICMP[ICmpP(v)]
        elif o=='fcmp': I.x=FCMP[FCmpP(v)]
        elif o=='alloca': I.x=self.ty(AllocTy(v))
        elif o in('extractvalue','insertvalue'):
            p=Idxs(v); I.x=[p[i] for i in range(NIdx(v))]
        elif o=='atomicrmw': I.x=RMW[RMWop(v)]
        elif o=='shufflevector': I.x=[MaskV(v,i) for i in range(NMask(v))]
        if o in('store','icmp','fcmp','trunc','zext','sext','fptoui','fptosi','uitofp','sitofp','fptrunc','fpext','ptrtoint','bitcast','cmpxchg','atomicrmw','ret','switch','select','freeze','extractvalue','inttoptr'):
            if I.ops:
                t=self.ty(TypeOf(Op(v,1 if o in('cmpxchg','atomicrmw','select') else 0)))
                I.x=(I.x,t) if I.x is not None else t
        return I
    def findloops(self,fn):
        # dominators (simple iterative)
        rpo=[]; seen=set()
        def dfs(b):
            st=[(b,iter(b.succs))]; seen.add(b)
            while st:
                x,it=st[-1]
                for s in it:
                    if s not in seen: seen.add(s); st.append((s,iter(s.succs))); break
                else: rpo.append(x); st.pop()
        dfs(fn.entry); rpo.reverse(); num={b:i for i,b in enumerate(rpo)}
        idom={fn.entry:fn.entry}; ch=True
        while ch:
            ch=False
            for b in rpo[1:]:
                new=None
                for p in b.preds:
                    if p in idom:
                        if new is None: new=p
                        else:
                            x,y=new,p
                            while x is not y:
                                while num[x]>num[y]: x=idom[x]
                                while num[y]>num[x]: y=idom[y]
                            new=x
                if idom.get(b) is not new: idom[b]=new; ch=True
        def dom(a,b):
            while True:
                if a is b: return True
                if b is fn.entry: return False
                b=idom[b]
        fn.loops={}
        for b in rpo:
            for s in b.succs:
                if num[s]<=num[b]:
                    if not dom(s,b): fn.loops[s]=None; continue   # irreducible
                    l=fn.loops.get(s)
                    if l is None:
                        l=Loop(); l.header=s; l.blocks={s}; l.fn=fn; fn.loops[s]=l
                    st=[b]
                    while st:
                        x=st.pop()
                        if x in l.blocks: continue
                        l.blocks.add(x)
                        st.extend(x.preds)
