"""P13: each thread is attached to exactly one environment of its VM"""
from common import *
FILES=core_files()+['src/fake-jni/jvm.cpp','src/fake-jni/fake-jni.cpp','src/baron/jvm.cpp']
VM='jnivm::VM'; ENV='jnivm::ENV'
def one(ex,q,pred=lambda f: True):
    fs=[f for f in ex.P.find(q) if f.d.get('body') and pred(f)]
    if len(fs)!=1: raise Unsupported('%s: %d candidates'%(q,len(fs)))
    return fs[0]
def tbl(ex,rec,field,ref):
    t=fieldty(ex,rec,field); r=ex.subref(rec,field,ref); return r,HeapLV('cell.'+t.base,r,t,TBL)
class CreateEnv:
    """VM::CreateEnv (virtual): a new environment of this VM; nothing that existed before changes.  Proved for every override."""
    def use(s,ex,fn): return True
    def apply(s,ex,n,fn,this,args):
        ex.used_contracts.add('VM::CreateEnv'); V=this.ref if isinstance(this,Rec) else this
        ex.created+=1; e=ex.new_ref(ENV); ex.oblige(V==ex.W.V,'precondition','the environment is created for the VM itself')
        F(ex,ENV,'vm',e).put(ex,V); ex.newenv=e; return e
def setup(ex):
    """a VM as its constructor leaves it, with an arbitrary attachment history"""
    f=one(ex,'jnivm::VM::VM',lambda f: len(f.params())==2); V=Const('V',I); ex.assume(And(V>0,V<=ex.alloc)); W=World(); ex.W=W; W.V=V; ex.created=0; ex.newenv=None
    noexc(ex,lambda: ex.ctor_body(V,f.rec(),f,[BoolVal(True),Const('ReturnNull',B)],top=True))
    ty=fieldty(ex,VM,'jnienvs'); W.lv=F(ex,VM,'jnienvs',V); W.m=Const('attached',ex.sort(ty)); W.lv.put(ex,W.m); W.so=W.m.sort(); k=Const('k13',W.so.dom(W.m).sort().domain())
    e=Select(W.so.val(W.m),k); ex.assume(ForAll([k],Implies(Select(W.so.dom(W.m),k),And(e>=0,e<=ex.alloc)),patterns=[e]))
    W.self=Const('self_thread',I); W.jvm=F(ex,VM,'javaVM',V).ref; W.tb,W.cell=tbl(ex,VM,'iinterface',V)
    ex.trust('the invocation table is the one the constructor builds (OverrideJNIInvokeInterface is protected and not called by the library)')
    return W
def cur(W,m): return If(Select(W.so.dom(m),W.self),Select(W.so.val(m),W.self),IntVal(0))
def slot(ex,i):
    """the function in entry i of the invocation table"""
    x=ex.fn_of(Select(ex.W.cell.load(ex),IntVal(i)))
    if isinstance(x,FnPtr): return lambda a: ex.invoke(x.fn,None,a)
    if isinstance(x,Lambda): return lambda a: ex.invoke_lambda(x,a)
    raise Unsupported('entry %d of the invocation table %s'%(i,x))
def others(ex,W,m1):
    k=Const('other',W.self.sort()); so=W.so
    ex.post(Implies(k!=W.self,And(Select(so.dom(m1),k)==Select(so.dom(W.m),k),Implies(Select(so.dom(W.m),k),Select(so.val(m1),k)==Select(so.val(W.m),k)))),'the environments of all other threads are left alone')
KEY='jnivm::VM.jnienvs'
def c(**kw):
    k=cfg(**kw); k['contracts'].update({'jnivm::VM::CreateEnv':CreateEnv()}); return k
def outptr(ex):
    """the caller's pointer-sized variable, or null"""
    p=Const('penv',Ptr); ex.assume(Implies(Ptr.blk(p)!=0,And(Ptr.blk(p)>0,Ptr.blk(p)<=Int('alloc!0'),Ptr.off(p)>=0,Ptr.off(p)<Select(ex.blksize(),Ptr.blk(p))))); ex.assume(Implies(Ptr.blk(p)==0,Ptr.off(p)==0))
    return p,ex.branch(Ptr.blk(p)==0)
def attach(nm,i,getenv=False):
    def body(ex):
        W=setup(ex); so=W.so; p,null=outptr(ex); old=Const('env0',I); ex.assume(old==cur(W,W.m)); s0=ex.old(); mem0=ex.mem('ref',I)
        a=[W.jvm,p,Const('version',I) if getenv else Const('extra',I)]
        r=noexc(ex,lambda: slot(ex,i)(a)); ex.reach(); ex.post(r==0,'returns JNI_OK'); m1=W.lv.load(ex); mem1=ex.mem('ref',I)
        if getenv and null:
            ex.post(BoolVal(ex.created==0),'no environment is created without an out pointer'); ex.post(m1==W.m,'nothing is attached'); unchanged_except(ex,s0,{}); return
        ex.post(BoolVal(ex.created<=1),'at most one environment is created'); ex.post(old==0 if ex.created else old!=0,'an environment is created if and only if the thread has none')
        e=ex.newenv if ex.created else old; ex.post(And(Select(so.dom(m1),W.self),Select(so.val(m1),W.self)==e),'the thread is attached to its environment, the same one as before if it had one'); others(ex,W,m1); held_balanced(ex,s0)
        q=Const('q',I); b=Ptr.blk(p); v=Select(Select(mem1,b),Ptr.off(p))
        if null: ex.post(mem1==mem0,'nothing is stored through a null pointer')
        else:
            ex.post(v==F(ex,ENV,'env',e).ref,'the environment of the calling thread is stored'); ex.post(Implies(q!=Ptr.off(p),Select(Select(mem1,b),q)==Select(Select(mem0,b),q)),'only the out pointer is written')
        unchanged_except(ex,s0,{KEY:[W.V],'mem.ref':[b]},objects=True)
    return Goal(nm,body,cfg=c())
def g_detach(ex):
    W=setup(ex); so=W.so; s0=ex.old(); r=noexc(ex,lambda: slot(ex,5)([W.jvm])); ex.reach(); ex.post(r==0,'returns JNI_OK'); m1=W.lv.load(ex)
    ex.post(Not(Select(so.dom(m1),W.self)),'the calling thread is no longer attached'); others(ex,W,m1); held_balanced(ex,s0); unchanged_except(ex,s0,{KEY:[W.V]},objects=True); ex.post(BoolVal(ex.created==0),'no environment is created')
def g_getenv(ex):
    W=setup(ex); so=W.so; f=one(ex,'jnivm::VM::GetEnv'); s0=ex.old(); r=noexc(ex,lambda: ex.invoke(f,W.V,[])); ex.reach(); r=r.load(ex) if isinstance(r,LV) else r
    ex.post(r==cur(W,W.m),'the environment of the calling thread'); others(ex,W,W.lv.load(ex)); m1=W.lv.load(ex); ex.post(cur(W,m1)==cur(W,W.m),'the attachment of the calling thread is kept'); unchanged_except(ex,s0,{KEY:[W.V]},objects=True)
def g_getjnienv(ex):
    W=setup(ex); ex.assume(cur(W,W.m)!=0); f=one(ex,'jnivm::VM::GetJNIEnv'); s0=ex.old(); e=cur(W,W.m); r=noexc(ex,lambda: ex.invoke(f,W.V,[])); ex.reach(); r=r.ref if isinstance(r,Rec) else r
    e=Const('e_',I); ex.assume(e==cur(W,W.m)); ex.post(r==F(ex,ENV,'env',e).ref,'the environment of the calling thread'); ex.post(W.lv.load(ex)==W.m,'no attachment changes'); unchanged_except(ex,s0,{})
GOALS=[attach('AttachCurrentThread',4),attach('AttachCurrentThreadAsDaemon',7),attach('GetEnv',6,True),Goal('DetachCurrentThread',g_detach,cfg=c()),Goal('VM::GetEnv',g_getenv,cfg=c()),Goal('VM::GetJNIEnv',g_getjnienv,cfg=c())]
# ---- creating an environment
TT=func('table_after',I,TBL); App=func('hooked',I,TBL,TBL)
def call_hook(ex,n,fn,f,lv,args):
    t=args[0]
    if not isinstance(t,LV): raise Unsupported('argument of a table hook')
    t.put(ex,App(f,t.load(ex))); return IntVal(0)
def folds(ex,ent,info,n,index,d):
    out={}
    for k,v in d['others']:
        if v.sort()==TBL:
            for k2,g,e in d['ints']+d['ptrs']: out['%s is the template after %s hooks'%(d['name'](k),d['name'](k2))]=lambda st,k=k,g=g: st.store[k]==TT(g(st))
    return out
def create(q,rec,replaced=()):
    def body(ex):
        f=one(ex,q); V=Const('V',I); ex.assume(And(V>0,V<=ex.alloc)); nt=HeapLV('cell.JNINativeInterface',ex.subref(VM,'ninterface',V),fieldty(ex,VM,'ninterface'),TBL).load(ex); hk=get(ex,VM,'jnienvhooks',V); so=hk.sort(); i=Const('i',I)
        ex.assume(TT(0)==nt); ex.assume(ForAll([i],Implies(And(i>=0,i<so.len(hk)),And(TT(i+1)==App(Select(so.arr(hk),i),TT(i)),Select(so.arr(hk),i)!=0)),patterns=[Select(so.arr(hk),i)]))
        ctx=None
        if rec!=VM: ctx=context(ex); c0=ctx.load(ex); live=And(c0!=0,alive(c0))
        s0=ex.old(); a0=ex.alloc
        try: r=ex.invoke(f,V,[])
        except CppThrow:
            ex.reach(); ex.post(live if ctx is not None else BoolVal(False),'only a thread that already has an environment is refused'); unchanged(ex,s0); return
        ex.reach(); r=r.load(ex) if isinstance(r,LV) else r; r=r.ref if isinstance(r,Rec) else r
        if ctx is not None: ex.post(Not(live),'a thread that already has an environment is refused'); ex.post(ctx.load(ex)==r,'the environment is recorded for the calling thread')
        ex.post(And(r>a0,r<=ex.alloc),'a new environment'); ex.post(get(ex,ENV,'vm',r)==V,'it belongs to this VM')
        t=ex.subref(ENV,'ninterface',r); h=F(ex,ENV,'env',r).ref; ex.post(get(ex,'_JNIEnv','functions',h)==t,'its handle uses its own table'); tb=HeapLV('cell.JNINativeInterface',t,fieldty(ex,ENV,'ninterface'),TBL).load(ex); q_=Const('q_',I)
        names=[x['n'] for x in ex.P.recs['JNINativeInterface']['fields']]; rep=[names.index(x) for x in replaced]
        ex.post(Implies(And(q_!=0,*[q_!=x for x in rep]),Select(tb,q_)==Select(TT(so.len(hk)),q_)),'the VM\'s template with all registered hooks applied in order')
        ex.post(Select(tb,IntVal(0))==r,'its table leads back to it')
        unchanged_except(ex,s0,{},objects=True)
    return Goal(q.split('::',1)[1],body,cfg=cfg(stdfunction=call_hook,loop_templates=[folds]))
def context(ex):
    c=Const('glob_FakeJni::JniEnvContext::env',I); ex.assume(c<0); return F(ex,'FakeJni::ThreadContext','env',c)
GOALS+=[create('jnivm::VM::CreateEnv',VM),create('FakeJni::Jvm::CreateEnv','FakeJni::Jvm'),create('Baron::Jvm::CreateEnv','Baron::Jvm',('FindClass','GetMethodID','GetStaticMethodID','GetFieldID','GetStaticFieldID'))]
class GetClassContract:
    """ENV::GetClass<T>(name): class tables only"""
    def use(s,ex,fn): return True
    def apply(s,ex,n,fn,this,args):
        ex.used_contracts.add('jnivm::ENV::GetClass'); ex.trust('ENV::GetClass<T> changes class tables and the type table only'); r=ex.fresh(I,'cls'); ex.assume(r>0); return r
def g_init(ex):
    f=one(ex,'jnivm::VM::initialize'); V=Const('V',I); ex.assume(And(V>0,V<=ex.alloc)); W=World(); ex.W=W; W.V=V; ex.created=0; ex.newenv=None; W.lv=F(ex,VM,'jnienvs',V); W.m=W.lv.load(ex); W.so=W.m.sort(); W.self=Const('self_thread',I)
    noexc(ex,lambda: ex.invoke(f,V,[])); ex.reach(); m1=W.lv.load(ex); ex.post(BoolVal(ex.created==1),'exactly one environment is created'); ex.post(And(Select(W.so.dom(m1),W.self),Select(W.so.val(m1),W.self)==ex.newenv),'the constructing thread is attached to it'); others(ex,W,m1)
def g_closed(ex):
    """closed world: the thread table is only used by functions under contract (or inlined into one)"""
    ok={'jnivm::VM::VM','jnivm::VM::initialize','jnivm::VM::GetEnv'}; bad=set()
    def walk(n,f):
        if isinstance(n,dict):
            if n.get('k')=='MemberExpr' and n.get('frec')==VM and n.get('field')=='jnienvs' and f.sqn not in ok and not f.sqn.startswith('jnivm::VM::VM(') : bad.add(f.sqn)
            for v in n.values():
                if isinstance(v,(dict,list)): walk(v,f)
        elif isinstance(n,list):
            for v in n: walk(v,f)
    for f in ex.P.fns.values():
        if f.d is not None and f.d.get('body'): walk(f.d['body'],f)
    if bad: raise Unsupported('the thread table is used by functions without a contract: '+', '.join(sorted(bad)))
    ex.reach(); ex.post(BoolVal(True),'the thread table is used only by functions under contract')
def ci():
    k=c(); k['contracts']['jnivm::ENV::GetClass']=GetClassContract(); return k
GOALS+=[Goal('VM::initialize',g_init,cfg=ci()),Goal('thread table: closed set of users',g_closed,cfg=cfg())]
