"""Method::invoke (C++ calls of methods): used by P10 and P11"""
from calls import *
import os
INST=os.path.join(os.path.dirname(os.path.abspath(__file__)),'inst','invoke.cpp')
PARAMS=['Boolean','Byte','Char','Short','Int','Long','Float','Double','Object']
CODE=dict(Boolean='Z',Byte='B',Char='C',Short='S',Int='I',Long='J',Float='F',Double='D',Void='V')
MEMB=dict(Boolean='z',Byte='b',Char='c',Short='s',Int='i',Long='j',Float='f',Double='d',Object='l')
def ext(ex,what,fn,args,**kw):
    """an external function runs: any result, it may throw, and leave any pending exception (that carries a C++ exception)"""
    ev=dict(what=what,fn=fn,args=args,**kw); ex.ext.append(ev)
    x=ex.fresh(I,'pending'); ex.assume(And(x>=0,x<=ex.alloc)); F(ex,'jnivm::ENV','current_exception',ex.W.E).put(ex,x); ev['after']=x
    ex.assume(Implies(x!=0,And(ex.isa(THR,x),get(ex,THR,'except',x)!=0))); ex.trust('every pending throwable carries a C++ exception: established by every function that makes one pending (Throw, ThrowNew, the call functions; proved)')
    if ex.branch(ex.fresh(B,'callee_throws')): ev['exc']=ex.fresh(I,'exc'); ex.assume(ev['exc']>0); raise CppThrow(None,None,ev['exc'])
    return ev
class JInvokeC:
    def use(s,ex,fn): return True
    def apply(s,ex,n,fn,this,args):
        a=[]
        for v in args[1:]:
            if isinstance(v,LV): v=v.load(ex)
            a.append(v)
        f=ex.P.fns[fn['id']]; p=a[-1]; ex.used_contracts.add('jnivm::Method::jinvoke'); mem=Select(ex.mem(ex.memkey(f.params()[-1][2].to),JV),Ptr.blk(p)); t=this.ref if isinstance(this,Rec) else this.load(ex); e0=args[0]; e0=e0.ref if isinstance(e0,Rec) else e0
        ev=ext(ex,'jinvoke',f,[e0]+a,mem=mem,this=t,ret=None,**{'class':'class' in str(f.params()[1][2].s)}); r=ex.fresh(JV,'result'); ev['ret']=r; return r
def native(ex,n,x,args):
    a=[]
    for v in args:
        if isinstance(v,PtrTo): v=v.lv
        if isinstance(v,LV): v=v.load(ex)
        a.append(v.ref if isinstance(v,Rec) else v)
    t=ex.T(n); ev=ext(ex,'native',x,a,rt=t,ret=None)
    if t.k=='void': ev['ret']=None; return IntVal(0)
    r=ex.fresh(ex.sort(t),'result'); ex.on_read(r,t); ev['ret']=r; return r
def goal(P,name):
    fs=[f for f in P.fns.values() if f.sqn=='inst::Invoke::'+name and f.d.get('body')]
    def body(ex):
        from p10 import last_close
        reset(ex); ex.ext=[]; world(ex); f=fs[0]; mid=Const('mid',I); ex.assume(And(mid>0,mid<=ex.alloc,ex.isa(MET,mid))); sg=get(ex,MET,'signature',mid); nat=get(ex,MET,'native',mid); ex.assume(nonul(sg)); ex.assume(slen(sg)>=0)
        cls=name.startswith('class'); o=Const('recv',I); ex.assume(And(o>0,o<=ex.alloc,alive(o)))
        if cls: ex.assume(ex.isa(CLS,o))
        for k in(WEAK,GLOB): ex.assume(Not(ex.isa(k,o)))
        ps=f.params(); V=[]
        for i,T in enumerate(PARAMS if name.endswith('all') else []):
            x=Const('a%d'%i,ex.sort(ps[3+i][2])); ex.on_read(x,ps[3+i][2]); V.append(x)
            if T=='Object': ex.assume(And(x>=0,x<=ex.alloc))
        isnat=ex.branch(nat!=0); tc=sat(sg,last_close(ex,sg)+1); ex.str_at(sg,last_close(ex,sg)+1); s0=ex.old(); r=None; thrown=None; pre=pending(ex); ex.assume(Implies(pre!=0,And(ex.isa(THR,pre),get(ex,THR,'except',pre)!=0)))
        try: r=ex.invoke(f,None,[recobj(ex,MET,mid),recobj(ex,f.params()[1][2].to.base,ex.W.env),o]+V)
        except CppThrow as e: thrown=e
        ex.reach(); es=ex.ext
        if not es: ex.post(BoolVal(thrown is not None and isnat),'no call only if the signature has no return type'); ex.post(And(*[tc!=ord(c) for c in 'ZBCSIJFDVL[']),'no call only if the signature has no return type'); return
        ex.post(BoolVal(len(es)==1),'exactly one call')
        if len(es)!=1: raise PathEnd()
        e=es[0]; a=e['args']; ex.post(BoolVal(e['what']==('native' if isnat else 'jinvoke')),'native methods run their native function, others their hook')
        if e['what']=='native':
            ex.post(BoolVal(len(a)==2+len(V)),'environment, receiver and the arguments')
            if len(a)!=2+len(V): raise PathEnd()
            ex.post(And(e['fn']==nat if e['fn'].sort()==nat.sort() else BoolVal(False),a[0]==ex.W.env,a[1]==o),"this method's function with the caller's environment and receiver"); vals=a[2:]
            for x,y in zip(vals,V): ex.post(x==y,'argument passed unchanged')
            T=[T for T in TYPES if norm(str(e['rt'].s))==norm(CT[T])] if e['rt'].k!='void' else ['Void']; T=T[0] if T else None; ex.post(BoolVal(T is not None),'a JNI return type')
            if T: ex.post(Or(tc==ord('L'),tc==ord('[')) if T=='Object' else tc==ord(CODE[T]),'called with the declared return type')
            if thrown is None and e['ret'] is not None and T: ex.post(func('jv_'+MEMB[T],JV,e['ret'].sort())(r)==e['ret'],'the result is returned unchanged')
        else:
            ex.post(BoolVal(e['class']==cls),'with the same kind of receiver'); ex.post(And(e['this']==mid,a[0]==ex.W.E,a[1]==o),'the method itself with the same environment and receiver')
            for i,(T,x) in enumerate(zip(PARAMS,V)): ex.post(func('jv_'+MEMB[T],JV,x.sort())(Select(e['mem'],Ptr.off(a[2])+i))==x,'argument %d is passed in its place'%i)
            if thrown is None: ex.post(r==e['ret'],'the result is returned unchanged')
        if 'exc' in e: ex.post(BoolVal(thrown is not None and thrown.ref is not None and thrown.ref.eq(e['exc'])),'a C++ exception of the callee passes'); return
        ex.post(e['after']!=0 if thrown is not None else e['after']==0,'throws exactly if an exception is pending after the call')
        if thrown is not None: ex.post(thrown.ref==get(ex,THR,'except',e['after']),'the pending exception is rethrown')
    return body
def invoke_goals(P):
    C=ccfg(P,indirect=native); C['contracts']['jnivm::Method::jinvoke']=JInvokeC()
    return [Goal('Method::invoke '+n,goal(P,n),cfg=C) for n in('class_none','object_none','class_all','object_all')]
