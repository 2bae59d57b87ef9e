"""P22: environment and VM handles stay bound to their owner"""
from common import *
FILES=core_files()
def one(ex,q,pred=lambda f: True):
    fs=[f for f in ex.P.find(q) if f.d.get('body') and pred(f)]
    if len(fs)!=1: raise Unsupported('%s: %d candidates'%(q,len(fs)))
    return fs[0]
def tbl(ex,rec,field,ref):
    """(location of the function table of an ENV / VM, its content map key)"""
    t=fieldty(ex,rec,field); r=ex.subref(rec,field,ref); return r,HeapLV('cell.'+t.base,r,t,TBL)
def from_handle(q,rec,owner,ofield):
    def body(ex):
        h=Const('h',I); ex.assume(And(h<=ex.alloc)); s0=ex.old(); f=one(ex,q)
        fn=F(ex,rec,'functions',h) ; ok=None
        fp=fn.load(ex); ex.assume(Implies(h!=0,fp!=0)); cell=HeapLV('cell.'+fieldty(ex,owner,ofield).base,fp,fieldty(ex,owner,ofield),TBL); r0=Select(cell.load(ex),IntVal(0))
        try: r=ex.invoke(f,None,[h])
        except CppThrow: ex.reach(); ex.post(Or(h==0,r0==0),'only a null or foreign handle is rejected'); unchanged(ex,s0); return
        ex.reach(); ex.post(And(h!=0,r0!=0),'a null or foreign handle is rejected'); ex.post(r==r0,'the back pointer of the handle is returned'); unchanged(ex,s0)
    return Goal(q.split('::',1)[1],body,cfg=cfg())
def override(q,rec,ofield):
    def body(ex):
        f=one(ex,q); o=Const('owner',I); ex.assume(And(o>0,o<=ex.alloc)); r,cell=tbl(ex,rec,ofield,o); old=cell.load(ex)
        ex.assume(Select(old,IntVal(0))==o)       # invariant: the table leads back to its owner
        a=Const('newtable',I); ex.assume(And(a>0,a<=ex.alloc,a!=o)); nt=Select(ex.hmap(cell.key,TBL),a); s0=ex.old(); q_=Const('q',I); r0=Select(nt,IntVal(0)); k=cell.key
        try: ex.invoke(f,o,[HeapLV(k,a,fieldty(ex,rec,ofield),TBL)])
        except CppThrow: ex.reach(); ex.post(And(r0!=0,r0!=o),'only a changed back pointer is rejected'); unchanged(ex,s0); return
        ex.reach(); new=cell.load(ex); ex.post(Or(r0==0,r0==o),'a changed back pointer is rejected'); ex.post(Select(new,IntVal(0))==o,'the back pointer is preserved'); ex.post(Implies(q_!=0,Select(new,q_)==Select(nt,q_)),'every function is replaced')
        unchanged_except(ex,s0,{k:[r]})
    return Goal(q.split('::',1)[1],body,cfg=cfg())
def g_env_ctor(ex):
    f=one(ex,'jnivm::ENV::ENV',lambda f: len(f.params())==2 and 'JNINativeInterface' in str(f.params()[1][2])); E=ex.new_ref('jnivm::ENV'); V=Const('V',I); ex.assume(V>0); t=fieldty(ex,'jnivm::ENV','ninterface')
    a=Const('tmpl',I); ex.assume(And(a>0,a<=Int('alloc!0'))); nt=Select(ex.hmap('cell.'+t.base,TBL),a); s0=ex.old(); q=Const('q',I)
    noexc(ex,lambda: ex.ctor_body(E,f.rec(),f,[V,HeapLV('cell.'+t.base,a,t,TBL)],top=True)); ex.reach(); r,cell=tbl(ex,'jnivm::ENV','ninterface',E); new=cell.load(ex)
    envr=F(ex,'jnivm::ENV','env',E).ref
    ex.post(get(ex,'_JNIEnv','functions',envr)==r,'the handle uses the table of this environment'); ex.post(Select(new,IntVal(0))==E,'the table leads back to the environment'); ex.post(Implies(q!=0,Select(new,q)==Select(nt,q)),'every function of the template is taken over')
    ex.post(get(ex,'jnivm::ENV','vm',E)==V,'belongs to the given VM'); lf=get(ex,'jnivm::ENV','localframe',E); so=lf.sort(); ex.post(so.len(lf)==1,'exactly one local frame is open'); ff=Select(so.arr(lf),IntVal(0)); ex.post(ff.sort().len(ff)==0,'and it is empty'); fr=get(ex,'jnivm::ENV','freeframes',E); ex.post(fr.sort().len(fr)==0,'no recycled frames'); ex.post(get(ex,'jnivm::ENV','current_exception',E)==0,'no pending exception'); ka=cell.key
    unchanged_except(ex,s0,{ka:[r],'_JNIEnv.functions':[envr]})
def getter(q,rec,sub):
    def body(ex):
        f=one(ex,q); o=Const('o',I); ex.assume(And(o>0,o<=ex.alloc)); want=F(ex,rec,sub,o); want=want.ref if isinstance(want,Rec) else want.load(ex); s0=ex.old(); r=noexc(ex,lambda: ex.invoke(f,o,[])); ex.reach(); ex.post((r.ref if isinstance(r,Rec) else r)==want,'the handle of this object'); unchanged(ex,s0)
    return Goal(q.split('::',1)[1],body,cfg=cfg())
GOALS=[from_handle('jnivm::ENV::FromJNIEnv','_JNIEnv','jnivm::ENV','ninterface'),from_handle('jnivm::VM::FromJavaVM','_JavaVM','jnivm::VM','iinterface'),
 override('jnivm::ENV::OverrideJNINativeInterface','jnivm::ENV','ninterface'),override('jnivm::VM::OverrideJNIInvokeInterface','jnivm::VM','iinterface'),Goal('ENV constructor',g_env_ctor,cfg=cfg()),
 getter('jnivm::ENV::GetJNIEnv','jnivm::ENV','env'),getter('jnivm::VM::GetJavaVM','jnivm::VM','javaVM'),getter('jnivm::ENV::GetVM','jnivm::ENV','vm')]
def g_vm_ctor(ex):
    f=one(ex,'jnivm::VM::VM',lambda f: len(f.params())==2); V=ex.new_ref('jnivm::VM'); rn=Const('ReturnNull',B); s0=ex.old()
    noexc(ex,lambda: ex.ctor_body(V,f.rec(),f,[BoolVal(True),rn],top=True)); ex.reach(); r,cell=tbl(ex,'jnivm::VM','iinterface',V); ka=cell.key
    jv=F(ex,'jnivm::VM','javaVM',V).ref
    ex.post(get(ex,'_JavaVM','functions',jv)==r,'the handle uses the table of this VM'); ex.post(Select(cell.load(ex),IntVal(0))==V,'the table leads back to the VM')
    unchanged_except(ex,s0,{},objects=True)
GOALS.append(Goal('VM constructor',g_vm_ctor,cfg=cfg()))
def g_writers(ex):
    """closed world: no function without a contract assigns a back pointer or the table of a handle"""
    ok={'jnivm::ENV::ENV','jnivm::VM::VM','jnivm::ENV::OverrideJNINativeInterface','jnivm::VM::OverrideJNIInvokeInterface'}
    w=writers(ex.P,{('JNINativeInterface','reserved0'),('JNIInvokeInterface','reserved0'),('_JNIEnv','functions'),('_JavaVM','functions'),('jnivm::ENV','ninterface'),('jnivm::VM','iinterface'),('jnivm::ENV','vm'),('jnivm::VM','ninterface')})
    bad=[x for x in w if x not in ok and not x.startswith('JNINativeInterface::') and not x.startswith('JNIInvokeInterface::')]
    if bad: raise Unsupported('assigned by functions without a contract: '+', '.join(sorted(bad)))
    ex.reach(); ex.post(BoolVal(True),'back pointers are assigned only by functions under contract')
GOALS.append(Goal('back pointers: closed set of writers',g_writers,cfg=cfg()))
