"""P12: monitors"""
from common import *
FILES=core_files()
def lockref(ex,o):
    w=F(ex,OBJ,'lock',o); return F(ex,'jnivm::ObjectMutexWrapper','lock',w.ref).ref
def mon(entry,delta):
    def body(ex):
        world(ex); h=handle(ex,'obj'); ro=Const('ro',I); ex.assume(ro==resolved(ex,h)); ex.assume(ro!=0); s0=ex.old(); h0=ex.ghost('held',z3.ArraySort(I,I))
        r=noexc(ex,lambda: jni(ex,entry,h)); ex.reach(); h1=ex.ghost('held',z3.ArraySort(I,I)); q=Const('q',I); L=lockref(ex,ro)
        ex.post(r==0,'reports success'); ex.post(Select(h1,L)==Select(h0,L)+delta,'the monitor of the resolved object changes by exactly one'); ex.post(Implies(q!=L,Select(h1,q)==Select(h0,q)),'no other lock is touched')
        unchanged_except(ex,s0,{})
    return Goal(entry,body,cfg=cfg())
def copies(f,what):
    def body(ex):
        ex.cfg['rec_depth']=3; a=Const('a',I); b=Const('b',I); ex.assume(And(a!=b,a>0,b>0,a<=ex.alloc,b<=ex.alloc)); h0=ex.ghost('held',z3.ArraySort(I,I)); s0=ex.old()
        from vals import Rec
        noexc(ex,lambda: ex.invoke(f,a,[b])); ex.reach(); q=Const('q',I); h1=ex.ghost('held',z3.ArraySort(I,I))
        ex.post(Select(h1,q)==Select(h0,q),'copying or assigning leaves every lock alone'); unchanged_except(ex,s0,{})
    return Goal(what,body,cfg=cfg())
def goals(P):
    gs=unpack_for(P,[OBJ])+[mon('MonitorEnter',1),mon('MonitorExit',-1)]; seen=set()
    for f in P.find('jnivm::ObjectMutexWrapper::ObjectMutexWrapper')+P.find('jnivm::ObjectMutexWrapper::operator='):
        if not f.d.get('body') or len(f.params())!=1: continue
        k='ObjectMutexWrapper %s(%s)'%(f.qn.split('::')[-1],f.params()[0][2].s)
        if k not in seen: seen.add(k); gs.append(copies(f,k))
    return gs
