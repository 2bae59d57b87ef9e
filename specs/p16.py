"""P16: class hierarchy queries"""
from common import *
FILES=core_files()
def bases_vec(ex): return ex.sort(base_ty(ex))
def base_ty(ex):
    for f in ex.P.fns.values():
        if f.sqn=='jnivm::Object::GetBaseClasses': return f.ret()
    raise Unsupported('GetBaseClasses')
def bases(ex,tok): return func('bases',I,bases_vec(ex))(tok)
def hier(ex):
    """declared base classes are a pure function of the class; reach is the reflexive-transitive closure (unique solution of its recursive equation on the acyclic hierarchy)"""
    ex.trust('baseclasses(env) of a class is pure and returns the declared base classes (non-empty list of classes or null); class hierarchies are acyclic, so reachability is the unique solution of its recursive equation')
def call_bases(ex,n,fn,f,lv,args):
    v=bases(ex,f); so=v.sort(); q=Const('qb',I); ex.assume(so.len(v)>=1)
    e=Select(so.arr(v),q); ex.assume(ForAll([q],Implies(And(q>=0,q<so.len(v)),And(e>=0,e<=Int('alloc!0'),Implies(e!=0,func('isa_'+CLS,I,B)(e)),Not(func('isa_'+WEAK,I,B)(e)),Not(func('isa_'+GLOB,I,B)(e)))),patterns=[e]))
    return v
Reach=func('reach',I,I,B)
def unfold(ex,c,d):
    t=get(ex,CLS,'baseclasses',c); v=bases(ex,t); so=v.sort(); q=Const('qr',I); e=Select(so.arr(v),q)
    return Reach(c,d)==Or(c==d,And(t!=0,Exists([q],And(q>=0,q<so.len(v),e!=0,Reach(e,d)))))
def has(ex):
    fs=[f for f in ex.P.find('HasBaseClass') if f.d.get('body')]
    if len(fs)!=1: raise Unsupported('HasBaseClass not found')
    return fs[0]
class HasContract:
    def __init__(s,rec): s.rec=rec
    def use(s,ex,fn): return not s.rec or any(f.fn is not None and f.fn.sqn=='HasBaseClass' for f in ex.frames)
    def apply(s,ex,n,fn,this,args):
        ex.used_contracts.add('HasBaseClass'); a,b=args[1],args[2]; ex.oblige(a!=0,'precondition','HasBaseClass is called with a class'); return Reach(a,b)
def clsref(ex,nm):
    c=Const(nm,I); ex.assume(And(c>0,c<=ex.alloc,ex.isa(CLS,c))); return c
def g_has(ex):
    world(ex); hier(ex); c=clsref(ex,'c'); d=Const('d',I); ex.assume(unfold(ex,c,d)); t=get(ex,CLS,'baseclasses',c); v=bases(ex,t); so=v.sort()
    ex.scan={'not an ancestor':(lambda st,q: Not(And(Select(so.arr(v),q)!=0,Reach(Select(so.arr(v),q),d))),so.len(v))}
    s0=ex.old(); r=noexc(ex,lambda: ex.invoke(has(ex),None,[ex.W.env,c,d])); ex.reach(); ex.post(ex.truth(r)==Reach(c,d),'true exactly when reachable through declared base classes'); unchanged_except(ex,s0,{})
def g_assign(ex):
    world(ex); hier(ex); a,ra=handle_to(ex,'a',CLS); b,rb=handle_to(ex,'b',CLS); s0=ex.old(); x=Const('ra_',I); y=Const('rb_',I); ex.assume(And(x==ra,y==rb))
    r=noexc(ex,lambda: jni(ex,'IsAssignableFrom',a,b)); ex.reach(); ex.post(ex.truth(r)==Reach(x,y),'exactly the reachable classes are assignable'); unchanged_except(ex,s0,{})
def g_inst(ex):
    world(ex); hier(ex); h=handle(ex,'obj'); ro=Const('ro',I); ex.assume(ro==resolved(ex,h)); c=get(ex,OBJ,'clazz',ro)
    for x in(c,): ex.isa(WEAK,x); ex.isa(GLOB,x); ex.isa(CLS,x)
    ex.assume(Implies(ro!=0,And(c>0,c<=ex.alloc,ex.isa(CLS,c),alive(c)))); b,rb=handle_to(ex,'cls',CLS); y=Const('rb_',I); ex.assume(y==rb)
    ex.trust('every live object handed to IsInstanceOf has its class recorded')
    r=noexc(ex,lambda: jni(ex,'IsInstanceOf',h,b)); ex.reach(); ex.post(ex.truth(r)==And(ro!=0,Reach(c,y)),'instance of exactly the classes its class is assignable to')
def g_super(ex):
    world(ex); hier(ex); h,r0=handle_to(ex,'cls',CLS); c=Const('c_',I); ex.assume(c==r0); t=get(ex,CLS,'baseclasses',c); v=bases(ex,t); s0=ex.old()
    r=noexc(ex,lambda: jni(ex,'GetSuperclass',h)); ex.reach(); ex.post(r==If(t!=0,Select(v.sort().arr(v),0),IntVal(0)),'the first declared base class or null'); unchanged_except(ex,s0,{})
def c(rec,**kw):
    k=cfg_fc(stdfunction=call_bases,**kw); k['contracts'].update(TJ); k['contracts']['HasBaseClass']=HasContract(rec); return k
GOALS=[Goal('HasBaseClass',g_has,cfg=c(True,loop_templates=[scans()])),Goal('IsAssignableFrom',g_assign,cfg=c(False)),Goal('IsInstanceOf',g_inst,cfg=c(False)),Goal('GetSuperclass',g_super,cfg=c(False))]
def goals(P): return unpack_for(P,[OBJ,CLS])+GOALS
