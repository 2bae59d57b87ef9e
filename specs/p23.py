"""P23: attached libraries are initialised once and unloaded once.  The loader functions and the hooks of a library are external: every call of
them is recorded in a ghost trace, dlopen yields an arbitrary handle and dlsym an arbitrary function per handle and name."""
from common import *
import p13,z3
from p13 import one,VM
FILES=p13.FILES
JVM='FakeJni::Jvm'; LIB='FakeJni::Jvm::libinst'; OPT='FakeJni::LibraryOptions'
SYM=Function('dlsym_of',I,I,Str,I)      # what dlsym of a loader answers for a handle and a name
def must(ex,c): return not ex.feasible(Not(c))
def chars(ex,v):
    """the characters of a C string argument, or None for the null string"""
    if isinstance(v,PtrTo): v=v.lv
    if isinstance(v,LV): v=v.load(ex)
    if not z3.is_expr(v): raise Unsupported('name passed to the loader')
    if v.sort()==CSs:
        if must(ex,CSs.is_null(v)): return None
        ex.oblige(Not(CSs.is_null(v)),'null-deref','a name is passed to the loader'); ex.oblige(CSs.o(v)==0,'post','the name from its first character'); return CSs.s(v)
    if v.sort()==I and must(ex,v==0): return None
    raise Unsupported('name passed to the loader: %s'%v.sort())
def num(ex,v):
    if isinstance(v,PtrTo): v=v.lv
    if isinstance(v,Rec): return v.ref
    if isinstance(v,LV): v=v.load(ex)
    if isinstance(v,Rec): return v.ref
    if v.sort()==Ptr: return Ptr.blk(v)
    return v
def loader(ex,n,x,args):
    W=ex.W
    if len(args)==2 and ex.T(n).k=='ptr':
        if must(ex,x==W.dlopen):
            h=ex.fresh(I,'handle'); ex.assume(h>=0); W.ev.append(('open',chars(ex,args[0]),h)); return h
        if must(ex,x==W.dlsym): return SYM(W.dlsym,num(ex,args[0]),chars(ex,args[1]))
    elif len(args)==1 and must(ex,x==W.dlclose): W.ev.append(('close',num(ex,args[0]))); return ex.fresh(I,'closed')
    elif len(args)==2: W.ev.append(('hook',x,num(ex,args[0]),num(ex,args[1]))); return ex.fresh(I,'hookresult')
    raise Unsupported('call of an unknown function pointer')
def setup(ex):
    W=World(); ex.W=W; W.ev=[]; W.dlopen,W.dlsym,W.dlclose=Ints('dlopen dlsym dlclose'); ex.assume(Distinct(W.dlopen,W.dlsym,W.dlclose,IntVal(0))); W.V=Const('V',I); ex.assume(And(W.V>0,W.V<=ex.alloc))
    W.path=Const('rpath',Str); ex.assume(slen(W.path)>=0); W.opt=ex.new_ref(OPT)
    for f in('dlopen','dlsym','dlclose'): F(ex,OPT,f,W.opt).put(ex,getattr(W,f))
    W.lv=F(ex,JVM,'libraries',W.V); W.m=Const('libs',ex.sort(fieldty(ex,JVM,'libraries'))); W.lv.put(ex,W.m); W.so=W.m.sort(); k=Const('k23',W.so.kk); e=Select(W.so.val(W.m),k); ex.assume(ForAll([k],Implies(Select(W.so.dom(W.m),k),And(e>0,e<=ex.alloc)),patterns=[e]))
    W.javavm=W.V; return W
def absent(ex,s,c):
    """no character c in s"""
    q=Const('qc',I); return ForAll([q],Implies(And(q>=0,q<slen(s)),sat(s,q)!=ord(c)),patterns=[sat(s,q)])
def name(ex,base,path): return ex.mk_cat(ex.lit(base.encode()),path)
def loaded(ex,W,path,ev,vm):
    """the events of loading a library: returns its handle and the suffixed name under which its hooks are looked up (None: the plain names)"""
    def hook(rest,h,nm):
        f=SYM(W.dlsym,h,nm)
        if rest: ex.post(BoolVal(len(rest)==1 and rest[0][0]=='hook'),'one call of the load hook'); k,x,a,b=rest[0]; ex.post(x==f,'the function the library exports as its load hook'); ex.post(f!=0,'only an exported hook'); ex.post(And(a==vm,b==0),'with the VM and no reserved argument')
        else: ex.post(f==0,'an exported load hook is called')
    ok=bool(ev) and ev[0][0]=='open' and ev[0][1] is not None; ex.post(BoolVal(ok),'the library is opened by its path')
    if not ok: raise PathEnd()
    ex.post(ev[0][1]==path,'the library is opened by its path'); h=ev[0][2]; plain=And(slen(path)!=0,absent(ex,path,'/'),absent(ex,path,'.'))
    if ex.branch(h!=0): hook(ev[1:],h,ex.lit(b'JNI_OnLoad')); return h,None
    if len(ev)==1: ex.post(Not(plain),'a plain name that cannot be opened is looked up in the program'); return IntVal(0),None
    ex.post(BoolVal(ev[1][0]=='open' and ev[1][1] is None),'the program itself is opened'); ex.post(plain,'only for a plain name'); h=ev[1][2]
    if ex.branch(h!=0): hook(ev[2:],h,name(ex,'JNI_OnLoad_',path)); return h,path
    ex.post(BoolVal(len(ev)==2),'nothing was opened: no hook'); return IntVal(0),None
def unloaded(ex,W,ev,h,suffix,vm):
    """the events of unloading the library with handle h"""
    if not ex.branch(h!=0): ex.post(BoolVal(ev==[]),'a library that was not opened gets neither hook nor close'); return
    f=SYM(W.dlsym,h,ex.lit(b'JNI_OnUnload') if suffix is None else name(ex,'JNI_OnUnload_',suffix)); n=len(ev); ex.post(BoolVal(n in(1,2) and ev[-1][0]=='close' and (n==1 or ev[0][0]=='hook')),'at most one unload hook, then one close')
    if not(n in(1,2) and ev[-1][0]=='close' and (n==1 or ev[0][0]=='hook')): return
    ex.post(ev[-1][1]==h,'closes exactly the handle that was opened')
    if n==2: k,x,a,b=ev[0]; ex.post(x==f,'the function the library exports as its unload hook'); ex.post(f!=0,'only an exported hook'); ex.post(And(a==vm,b==0),'with the VM and no reserved argument')
    else: ex.post(f==0,'an exported unload hook is called')
def call(ex,fn,*a): return noexc(ex,lambda: ex.invoke(one(ex,JVM+'::'+fn),recobj(ex,JVM,ex.W.V),list(a)))
def opts(ex): return Const('options',Str),recobj(ex,OPT,ex.W.opt)
def same(ex,W,m0,m1,but=None):
    k=Const('other',W.so.kk); c=Implies(k!=but,And(Select(W.so.dom(m1),k)==Select(W.so.dom(m0),k),Implies(Select(W.so.dom(m0),k),Select(W.so.val(m1),k)==Select(W.so.val(m0),k)))) if but is not None else And(Select(W.so.dom(m1),k)==Select(W.so.dom(m0),k),Implies(Select(W.so.dom(m0),k),Select(W.so.val(m1),k)==Select(W.so.val(m0),k)))
    ex.post(c,'other libraries are left alone')
def attach(ex,W):
    o,l=opts(ex); call(ex,'attachLibrary',W.path,o,l); return W.lv.load(ex)
def g_attach(ex):
    W=setup(ex); had=Select(W.so.dom(W.m),W.path); s0=ex.old(); m1=attach(ex,W); ex.reach()
    if ex.branch(had): ex.post(BoolVal(W.ev==[]),'attaching an attached path opens, calls and closes nothing'); ex.post(m1==W.m,'and has no effect'); unchanged_objects(ex,s0); return
    ex.post(And(Select(W.so.dom(m1),W.path),Select(W.so.val(m1),W.path)!=0),'the library is attached'); same(ex,W,W.m,m1,W.path); loaded(ex,W,W.path,list(W.ev),W.javavm)
def unchanged_objects(ex,s0): unchanged_except(ex,s0,{},objects=True)
def havoc(ex,W,m1):
    """any number of operations on other paths"""
    m=ex.fresh(W.m.sort(),'later'); ex.assume(And(Select(W.so.dom(m),W.path),Select(W.so.val(m),W.path)==Select(W.so.val(m1),W.path))); W.lv.put(ex,m); return m
def g_remove(ex):
    """attach, then any operations on other paths, then remove"""
    W=setup(ex); ex.assume(Not(Select(W.so.dom(W.m),W.path))); m1=attach(ex,W); h,sfx=loaded(ex,W,W.path,list(W.ev),W.javavm); W.ev.clear(); m2=havoc(ex,W,m1); r=Const('removed',Str)
    if ex.branch(r==W.path):
        call(ex,'removeLibrary',r,Const('options2',Str)); ex.reach(); m3=W.lv.load(ex); ex.post(Not(Select(W.so.dom(m3),W.path)),'the library is no longer attached'); same(ex,W,m2,m3,W.path); unloaded(ex,W,list(W.ev),h,sfx,W.javavm); return
    ex.assume(Not(Select(W.so.dom(m2),r))); call(ex,'removeLibrary',r,Const('options2',Str)); ex.reach(); m3=W.lv.load(ex); ex.post(BoolVal(W.ev==[]),'removing a path that is not attached has no effect'); same(ex,W,m2,m3)
def g_again(ex):
    """attach, remove, attach: the second attachment loads the library anew"""
    W=setup(ex); ex.assume(Not(Select(W.so.dom(W.m),W.path))); attach(ex,W); W.ev.clear(); call(ex,'removeLibrary',W.path,Const('options2',Str)); W.ev.clear(); m=attach(ex,W); ex.reach(); ex.post(And(Select(W.so.dom(m),W.path),Select(W.so.val(m),W.path)!=0),'the library is attached again'); loaded(ex,W,W.path,list(W.ev),W.javavm)
def g_destroy(ex):
    """destruction of the VM ends the lifetime of every attached library once; the unload of one library is the one of removal"""
    W=setup(ex); ex.assume(Not(Select(W.so.dom(W.m),W.path))); m1=attach(ex,W); h,sfx=loaded(ex,W,W.path,list(W.ev),W.javavm); W.ev.clear(); m2=havoc(ex,W,m1); W.gone=[]
    ex.destroy(W.V,JVM); ex.reach(); k=Const('k',W.so.kk); has=[Select(W.so.dom(m),k) for m in W.gone]
    ex.post(Implies(Select(W.so.dom(m2),k),Or(*has)),'every attached library is unloaded'); ex.post(And(*[Not(And(a,b)) for i,a in enumerate(has) for b in has[:i]]),'once'); ex.post(And(*[Implies(Select(W.so.dom(m),k),And(Select(W.so.dom(m2),k),Select(W.so.val(m),k)==Select(W.so.val(m2),k))) for m in W.gone]),'and nothing else')
    ev=len(W.ev); ex.post(BoolVal(ev==0),'no loader call besides'); ex.destroy(Select(W.so.val(m2),W.path),LIB); unloaded(ex,W,list(W.ev),h,sfx,W.javavm)
def drop_all(ex,v,ty,rec):
    if rec!=LIB: raise Unsupported('container of '+rec)
    ex.trust('destroying a standard container destroys each of its elements once'); ex.W.gone.append(v)
def c(): return cfg(indirect=loader,drop_all=drop_all)
GOALS=[Goal('attachLibrary',g_attach,cfg=c()),Goal('removeLibrary',g_remove,cfg=c()),Goal('attach, remove, attach',g_again,cfg=c()),Goal('destruction of the VM',g_destroy,cfg=c())]
