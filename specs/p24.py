"""P24: thread-context guards and local-frame guards"""
from common import *
import p13
from p13 import one,VM,ENV,cur,tbl,KEY
FILES=p13.FILES
JVM='FakeJni::Jvm'; CTX='FakeJni::JniEnvContext'; LFR='FakeJni::LocalFrame'; FENV='FakeJni::Env'
class CreateEnv(p13.CreateEnv):
    """Jvm::CreateEnv: refuses a thread that has an environment, else creates one and records it for the thread (proved as P13)"""
    def apply(s,ex,n,fn,this,args):
        c=ex.W.ctx.load(ex)
        if ex.branch(And(c!=0,alive(c))): raise CppThrow('std::runtime_error',None,ex.new_ref())
        e=super().apply(ex,n,fn,this,args); ex.W.ctx.put(ex,e); ex.assume(alive(e)); facts(ex,e,True)
        F(ex,FENV,'jvm',e).put(ex,ex.W.V); return e
def facts(ex,e,new=False):
    """an environment as its constructor leaves it: both handles use its own table, the table leads back to it"""
    t=ex.subref(ENV,'ninterface',e); h=F(ex,ENV,'env',e).ref; cell=HeapLV('cell.JNINativeInterface',t,fieldty(ex,ENV,'ninterface'),TBL); lf=F(ex,ENV,'localframe',e); so=lf.load(ex).sort()
    if new:
        F(ex,'_JNIEnv','functions',e).put(ex,t); F(ex,'_JNIEnv','functions',h).put(ex,t); tb=ex.fresh(TBL,'table'); cell.put(ex,Store(tb,IntVal(0),e)); v=ex.fresh(so,'frames'); ex.assume(so.len(v)==1); f=Select(so.arr(v),IntVal(0)); ex.assume(f.sort().len(f)==0); lf.put(ex,v); fl=F(ex,ENV,'freeframes',e); fv=ex.fresh(fl.load(ex).sort(),'free'); ex.assume(fv.sort().len(fv)==0); fl.put(ex,fv)
    else:
        ex.assume(And(get(ex,'_JNIEnv','functions',e)==t,get(ex,'_JNIEnv','functions',h)==t,Select(cell.load(ex),IntVal(0))==e,so.len(lf.load(ex))>=1,F(ex,FENV,'jvm',e).load(ex)!=0)); q=Const('qf24',I); fv=get(ex,ENV,'freeframes',e); el=Select(fv.sort().arr(fv),q); ex.assume(fv.sort().len(fv)>=0); ex.assume(ForAll([q],Implies(And(q>=0,q<fv.sort().len(fv)),el.sort().len(el)==0),patterns=[el]))
def setup(ex,attached=None):
    """a Jvm as its constructor leaves it; the calling thread is attached to it or to nothing (a thread attached elsewhere is refused by CreateEnv)"""
    f=one(ex,JVM+'::Jvm',lambda f: len(f.params())==2); V=Const('V',I); ex.assume(And(V>0,V<=ex.alloc)); W=World(); ex.W=W; W.V=V; ex.created=0; ex.newenv=None
    noexc(ex,lambda: ex.ctor_body(V,recty(ex,JVM),f,[BoolVal(True),Const('ReturnNull',B)],top=True))
    W.lv=F(ex,VM,'jnienvs',V); W.m=Const('attached',ex.sort(fieldty(ex,VM,'jnienvs'))); W.lv.put(ex,W.m); W.so=W.m.sort(); W.self=Const('self_thread',I); W.ctx=p13.context(ex); c=Const('context',I); W.ctx.put(ex,c); ex.assume(And(c>=0,c<=ex.alloc)); W.c=c
    W.tb,W.cell=tbl(ex,VM,'iinterface',V); W.live=And(c!=0,alive(c)); e0=cur(W,W.m); ex.assume(W.live==(e0!=0)); ex.assume(Implies(W.live,e0==c)); ex.assume(Implies(c!=0,V!=c))
    ex.trust('a thread is attached to at most one Jvm, and its thread context refers to exactly the environment it is attached with (established by Jvm::CreateEnv, proved as P13; the weak reference of a detached environment expires with its last owner)')
    facts(ex,c) if ex.branch(W.live) else None
    W.was=ex.branch(W.live); return W
def frames(ex,e): return get(ex,ENV,'localframe',e)
def same_threads(ex,W,m0,m1):
    k=Const('other',I); so=W.so; ex.post(Implies(k!=W.self,And(Select(so.dom(m1),k)==Select(so.dom(m0),k),Implies(Select(so.dom(m0),k),Select(so.val(m1),k)==Select(so.val(m0),k)))),'other threads are left alone')
def env2(ex,g):
    v=get(ex,CTX,'env2',g); return v
def ctor(ex,rec,g,args,pred):
    f=one(ex,rec+'::'+rec.split('::')[-1],pred); ex.ctor_body(g,recty(ex,rec),f,args,top=True)
isvm=lambda n: lambda f: len(f.params())==n and 'Jvm' in str(f.params()[0][2])
def g_context(ex):
    """guard over a VM: construction, any use that keeps the attachment, destruction"""
    W=setup(ex); g=ex.new_ref(CTX); V=recobj(ex,JVM,W.V); m0=W.m
    noexc(ex,lambda: ctor(ex,CTX,g,[V],isvm(1))); ex.reach(); m1=W.lv.load(ex); e=cur(W,m1)
    ex.post(BoolVal(ex.created==(0 if W.was else 1)),'attaches the thread exactly if it is not attached'); ex.post(e!=0,'the thread is attached'); ex.post(env2(ex,g)==e,'the guard holds the environment of the thread'); ex.post(W.ctx.load(ex)==e,'which is the one recorded for the thread'); same_threads(ex,W,m0,m1)
    if W.was: ex.post(m1==m0,'an attached thread keeps its environment')
    s1=ex.old(); n=ex.created; noexc(ex,lambda: ex.destroy(g,CTX)); ex.reach(); m2=W.lv.load(ex)
    ex.post(cur(W,m2)==cur(W,m0),'after its scope the thread is attached exactly if it was before, to the same environment'); same_threads(ex,W,m0,m2); ex.post(BoolVal(ex.created==n),'destruction creates nothing')
def g_context0(ex):
    """guard without a VM: neither attaches nor detaches"""
    W=setup(ex); g=ex.new_ref(CTX); noexc(ex,lambda: ctor(ex,CTX,g,[],lambda f: len(f.params())==0)); ex.reach(); ex.post(W.lv.load(ex)==W.m,'nothing is attached'); ex.post(env2(ex,g)==If(W.live,W.c,IntVal(0)),'the guard holds the environment of the thread, if any')
    r=None; s1=ex.old(); f=one(ex,CTX+'::getJniEnv')
    try: r=ex.invoke(f,g,[]); r=r.ref if isinstance(r,Rec) else r
    except CppThrow: ex.post(Not(W.live),'only a thread without an environment is refused')
    else: ex.post(And(W.live,r==W.c),'the environment of the thread')
    unchanged(ex,s1); noexc(ex,lambda: ex.destroy(g,CTX)); ex.reach(); ex.post(W.lv.load(ex)==W.m,'nothing is detached')
def g_frame(withvm):
    def body(ex):
        W=setup(ex); g=ex.new_ref(LFR); size=Const('size',I); ex.assume(And(size>=0,size<2**31)); m0=W.m; fr0=frames(ex,W.c); so=fr0.sort(); n0=so.len(fr0); a0=ex.alloc
        args=[recobj(ex,JVM,W.V)] if withvm else []
        try: ctor(ex,LFR,g,args+[size],isvm(2) if withvm else (lambda f: len(f.params())==1 and 'Jvm' not in str(f.params()[0][2])))
        except CppThrow:
            ex.reach(); ex.post(And(Not(W.live),BoolVal(not withvm)),'only a thread without an environment is refused'); ex.post(W.lv.load(ex)==m0,'nothing stays attached'); ex.post(frames(ex,W.c)==fr0,'no frame is left behind'); return
        ex.reach(); m1=W.lv.load(ex); e=cur(W,m1); base=fr0 if W.was else None; f1=frames(ex,e); q=Const('q',I)
        ex.post(BoolVal(W.was or withvm),'a thread without an environment is refused'); ex.post(e!=0,'the thread is attached'); ex.post(BoolVal(ex.created==(0 if W.was else 1)),'attaches the thread exactly if it is not attached')
        if W.was:
            ex.post(so.len(f1)==n0+1,'pushes exactly one frame'); ex.post(Implies(And(q>=0,q<n0),Select(so.arr(f1),q)==Select(so.arr(fr0),q)),'on top of the frames there were')
        else: ex.post(so.len(f1)==2,'pushes exactly one frame')
        top=Select(so.arr(f1),so.len(f1)-1); ex.post(top.sort().len(top)==0,'the new frame is empty')
        # any use of the scope: references are added to its own frame
        lf=F(ex,ENV,'localframe',e); v=ex.fresh(so,'used'); ex.assume(so.len(v)==so.len(f1)); qq=Const('qu',I); ex.assume(ForAll([qq],Implies(And(qq>=0,qq<so.len(f1)-1),Select(so.arr(v),qq)==Select(so.arr(f1),qq)),patterns=[Select(so.arr(v),qq)])); lf.put(ex,v)
        n=ex.created; noexc(ex,lambda: ex.destroy(g,LFR)); ex.reach(); m2=W.lv.load(ex)
        ex.post(cur(W,m2)==cur(W,m0),'after its scope the thread is attached exactly if it was before'); same_threads(ex,W,m0,m2); ex.post(BoolVal(ex.created==n),'destruction creates nothing'); f2=frames(ex,e)
        if W.was: ex.post(so.len(f2)==n0,'pops exactly one frame'); ex.post(Implies(And(q>=0,q<n0),Select(so.arr(f2),q)==Select(so.arr(fr0),q)),'the frames are as before the scope')
        else: ex.post(so.len(f2)==1,'pops exactly one frame')
    return body
def g_thread(ex):
    """end of a thread: it is detached if it was attached"""
    W=setup(ex); c=W.ctx.ref; f=one(ex,'FakeJni::ThreadContext::~ThreadContext'); F(ex,FENV,'jvm',W.c).put(ex,W.V)
    def abort(ex,*a): raise PathEnd()
    noexc(ex,lambda: ex.invoke(f,c,[])); ex.reach(); ex.post(cur(W,W.lv.load(ex))==0,'a thread that ends is no longer attached'); same_threads(ex,W,W.m,W.lv.load(ex)); ex.post(BoolVal(ex.created==0),'nothing is created')
def on_abort(ex,*a): ex.trust('ThreadContext: the environment of an ending thread has no owner but its VM (else the library aborts)'); raise PathEnd()
def c(**kw):
    k=cfg(**kw); k['contracts'].update({'jnivm::VM::CreateEnv':CreateEnv()}); return k
GOALS=[Goal('JniEnvContext over a VM',g_context,cfg=c()),Goal('JniEnvContext',g_context0,cfg=c()),Goal('LocalFrame',g_frame(False),cfg=c()),Goal('LocalFrame over a VM',g_frame(True),cfg=c()),Goal('ThreadContext',g_thread,cfg=c(on_abort=on_abort))]
