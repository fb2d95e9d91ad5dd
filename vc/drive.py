import sys, os, time, traceback
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import sym, ir, build, z3
def prove(bc,h,log=None,deadline=None,mode='proof',**kw):
    E=sym.Engine(ir.Module(bc),h,mode=mode,log=log,deadline=deadline,**kw)
    t=time.time(); err=None
    try: E.verify()
    except (sym.Unsupported,sym.Budget) as e: err=f'{type(e).__name__}: {e}'
    except Exception as e:
        err='internal: '+''.join(traceback.format_exception(e))[-1500:]
    E.wall=time.time()-t; E.err=err
    return E
if __name__=='__main__':
    src=sys.argv[1]; out='/tmp/u.bc'
    t=time.time(); hs=build.compile_ir(src,out); print('compile %.1fs'%(time.time()-t))
    for h in hs:
        if len(sys.argv)>2 and h not in sys.argv[2:]: continue
        print('==',h)
        E=prove(out,h,log=sys.stdout if os.environ.get('V') else None,deadline=time.time()+float(os.environ.get('T','120')))
        bad=[o for o in E.obl if o[3] not in('unsat','trivial')]
        print('  %s %s obligations=%d bad=%d rets=%d wall=%.1fs q=%s err=%s covers=%s loops=%s'%(h,'OK' if not bad and not E.err and E.rets else 'FAIL',len(E.obl),len(bad),E.rets,E.wall,E.qstat,E.err,E.covers,E.loopmode))
        for b in bad: print('    ',b)
        if os.environ.get('M'):
            for f in E.fail[:3]: print(f)
        if os.environ.get('I'):
            for k,v in E.invs.items(): print(k,v[-1])
