"""P02: global and weak global references"""
from common import *
FILES=core_files()
GL='jnivm::VM.globals'
def glob(ex,store=None): return get(ex,'jnivm::VM','globals',ex.W.V) if store is None else oldF(ex,store,'jnivm::VM','globals',ex.W.V)
def wf_globals(ex):
    g=glob(ex); so=g.sort(); q=Const('qg',I); ex.assume(so.len(g)>=0)
    ex.assume(ForAll([q],Implies(And(q>=0,q<so.len(g)),And(Select(so.arr(g),q)>0,Select(so.arr(g),q)<=Int('alloc!0')))))
    return g
def new(entry,kind,other):
    def body(ex):
        world(ex); h=handle(ex,'obj'); ro=z3.simplify(resolved(ex,h)); g0=wf_globals(ex); s0=ex.old()
        r=noexc(ex,lambda: jni(ex,entry,h)); ex.reach()
        if ex.branch(ro==0):
            ex.post(r==0,'null for a null or collected object'); unchanged_except(ex,s0,{})
        else:
            ex.post(r>Int('alloc!0'),'a new reference object, distinct from every existing one'); ex.post(And(ex.isa(kind,r),Not(ex.isa(other,r))),'of the right kind')
            ex.post(wrapped(ex,kind,r)==ro,'it designates the resolved object'); appended(ex,g0,glob(ex),[r],'the table of global references')
            unchanged_except(ex,s0,dict(TREE,**{GL:[ex.W.V]}))
        held_balanced(ex,s0)
    return Goal(entry,body,cfg=cfg_fc())
def delete(entry,kind):
    def body(ex):
        world(ex); h=handle(ex,'ref'); ok=Or(h==0,ex.isa(kind,h)); g0=wf_globals(ex); so=g0.sort()
        ex.scan={'entry is another reference':(lambda st,q: Select(so.arr(g0),q)!=h,so.len(g0))}
        s0=ex.old()
        try: jni(ex,entry,h)
        except CppThrow: ex.reach(); ex.post(Not(ok),'rejects only a handle of another kind'); unchanged_except(ex,s0,{}); held_balanced(ex,s0); return
        ex.reach(); ex.post(ok,'accepts only null and references of its kind')
        if ex.branch(h==0): unchanged_except(ex,s0,{})
        else: removed_first(ex,g0,glob(ex),h,'the table of global references'); unchanged_except(ex,s0,{GL:[ex.W.V]})
        held_balanced(ex,s0)
    return Goal(entry,body,cfg=cfg(loop_templates=[scans()]))
def g_type(ex):
    world(ex); h=handle(ex,'ref'); s0=ex.old()
    r=noexc(ex,lambda: jni(ex,'GetObjectRefType',h)); ex.reach()
    ex.post(r==If(h==0,0,If(ex.isa(WEAK,h),3,If(ex.isa(GLOB,h),2,1))),'invalid / local / global / weak by the kind of the handle'); unchanged_except(ex,s0,{})
def goals(P): return unpack_for(P,[OBJ,WEAK,GLOB])+[new('NewGlobalRef',GLOB,WEAK),new('NewWeakGlobalRef',WEAK,GLOB),delete('DeleteGlobalRef',GLOB),delete('DeleteWeakGlobalRef',WEAK),Goal('GetObjectRefType',g_type,cfg=cfg())]
