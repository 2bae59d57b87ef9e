"""P03: handles to one object are interchangeable"""
from common import *
FILES=core_files()
def g_same(ex):
    world(ex); a=handle(ex,'a'); b=handle(ex,'b'); ra=resolved(ex,a); rb=resolved(ex,b); s0=ex.old()
    r=noexc(ex,lambda: jni(ex,'IsSameObject',a,b)); ex.reach(); ex.post((r!=0 if r.sort()==I else r)==(ra==rb),'true exactly when both designate the same object or none'); unchanged_except(ex,s0,{})
def clazz(ex,o):
    c=get(ex,OBJ,'clazz',o); return c
def g_objclass(ex):
    world(ex); h=handle(ex,'obj'); ro=Const('ro',I); ex.assume(ro==resolved(ex,h)); c=clazz(ex,ro); ex.assume(And(c>=0,c<=ex.alloc)); s0=ex.old()
    for x in(c,): ex.isa(CLS,x); ex.isa(WEAK,x); ex.isa(GLOB,x)
    r=noexc(ex,lambda: jni(ex,'GetObjectClass',h)); ex.reach()
    if ex.branch(ro==0): return
    if ex.branch(And(c!=0,alive(c))): ex.post(r==c,'the class recorded in the resolved object'); pushed(ex,s0,[c]); unchanged_except(ex,s0,{LF:[ex.W.E],CLZ:[c]})
    else: ex.post(r==0,'null if no class is recorded'); unchanged_except(ex,s0,{})
def g_sameclass(ex):
    """handles to one object: every query sees the same object"""
    world(ex); a=handle(ex,'a',nonnull=True); ra=Const('ra',I); ex.assume(ra==resolved(ex,a)); ex.assume(ra!=0); s0=ex.old()
    r=noexc(ex,lambda: jni(ex,'NewLocalRef',a)); ex.reach(); ex.post(r==ra,'a new local reference designates the resolved object')
def reflected(entry):
    def body(ex):
        world(ex); h=handle(ex,'m'); ro=Const('ro',I); ex.assume(ro==resolved(ex,h)); c=clazz(ex,ro); ex.assume(And(c>=0,c<=ex.alloc)); seen=[]
        for x in(c,): ex.isa(WEAK,x); ex.isa(GLOB,x); ex.isa(CLS,x)
        ex.assume(Implies(c!=0,And(ex.isa(CLS,c),alive(c))))
        con=ex.contracts['jnivm::InternalFindClass']
        ex.fc_ret=[]
        r=noexc(ex,lambda: jni(ex,entry,h)); ex.reach()
        ex.post(Or(r==0,r==ro),'the ID is the resolved member object'); ex.post(Implies(h==0,r==0),'null for null')
        if ex.fc_ret: ex.post((r!=0)==And(ro!=0,c==ex.fc_ret[-1]),'non-null exactly for an object of the reflection class')
    c=cfg_fc(); c['contracts'].update(TJ); return Goal(entry,body,cfg=c)
def goals(P):
    return unpack_for(P)+[Goal('IsSameObject',g_same,cfg=cfg()),Goal('GetObjectClass',g_objclass,cfg=cfg_fc()),Goal('NewLocalRef',g_sameclass,cfg=cfg()),reflected('FromReflectedMethod'),reflected('FromReflectedField')]
