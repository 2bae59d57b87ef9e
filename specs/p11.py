"""P11: exceptions from hooked functions become pending Java exceptions"""
from invoke import *
import p10
FILES=core_files()+[INST]
def inv(ex):
    """an arbitrary prior pending state: nothing, or a throwable that carries a C++ exception"""
    x=pending(ex); q=Const('q_thr',I); ex.assume(And(x>=0,x<=ex.alloc,Implies(x!=0,And(ex.isa(THR,x),alive(x),get(ex,THR,'except',x)!=0)))); return x
def carries(ex):
    """every function that makes something pending establishes the invariant"""
    x=pending(ex); ex.post(Implies(x!=0,And(ex.isa(THR,x),get(ex,THR,'except',x)!=0)),'what is pending is a throwable that carries a C++ exception')
def keep(ex,s0,extra=()): unchanged_except(ex,s0,{CE:[ex.W.E],**{k:v for k,v in dict(extra).items()}},objects=True); held_balanced(ex,s0)
NOEXC='no C++ exception reaches the JNI caller'
def throw(ex):
    reset(ex); world(ex); p0=inv(ex); h=handle(ex,'obj'); t=resolved(ex,h); isthr=And(t>0,ex.isa(THR,t),alive(t)); ex.assume(isthr); s0=ex.old(); e0=get(ex,THR,'except',t)
    noexc(ex,lambda: jni(ex,'Throw',h),NOEXC); ex.reach()
    ex.post(pending(ex)==t,'the given throwable is pending'); ex.post(Implies(e0!=0,get(ex,THR,'except',t)==e0),'it keeps the C++ exception it carries'); carries(ex)
    unchanged_except(ex,s0,{CE:[ex.W.E],THR+'.except':[t]},objects=True); held_balanced(ex,s0)
def thrownew(ex):
    reset(ex); world(ex); ex.excvals={}; inv(ex); hc,_=handle_to(ex,'cls',CLS); m=Const('message',CSs); ex.assume(Not(CSs.is_null(m))); s0=ex.old()
    noexc(ex,lambda: jni(ex,'ThrowNew',hc,m),NOEXC); ex.reach(); p=pending(ex)
    ex.post(p>Int('alloc!0'),'a new object is pending'); carries(ex)
    x=get(ex,THR,'except',p); said=[]
    for r,v in ex.excvals.values():
        for y in (getattr(v,'args',None) or [])[:1]:
            if z3.is_expr(y) and y.sort() in(CSs,Str): said.append(And(x==r,(ex.cstr(y) if y.sort()==CSs else y)==ex.cstr(m)))
    ex.post(Or(*said),'it carries an exception made here, with the given message')
    keep(ex,s0)
def check(ex):
    reset(ex); world(ex); p0=inv(ex); s0=ex.old(); r=noexc(ex,lambda: jni(ex,'ExceptionCheck'),NOEXC); ex.reach()
    ex.post((r!=0)==(p0!=0),'true exactly if an exception is pending'); ex.post(And(r>=0,r<=1),'JNI_TRUE or JNI_FALSE'); unchanged_except(ex,s0,{},objects=True)
def occurred(ex):
    reset(ex); world(ex); p0=inv(ex); s0=ex.old(); r=noexc(ex,lambda: jni(ex,'ExceptionOccurred'),NOEXC); ex.reach()
    ex.post(r==p0,'the pending throwable, null if none'); ex.post(pending(ex)==p0,'it stays pending'); unchanged_except(ex,s0,{LF:[ex.W.E],CLZ:[p0]},objects=True); held_balanced(ex,s0)
def clear(ex):
    reset(ex); world(ex); inv(ex); s0=ex.old(); noexc(ex,lambda: jni(ex,'ExceptionClear'),NOEXC); ex.reach(); ex.post(pending(ex)==0,'nothing is pending'); keep(ex,s0)
def describe(ex):
    reset(ex); world(ex); p0=inv(ex); s0=ex.old(); noexc(ex,lambda: jni(ex,'ExceptionDescribe'),NOEXC); ex.reach(); ex.post(pending(ex)==p0,'the pending exception is left alone'); unchanged_except(ex,s0,{},objects=True); held_balanced(ex,s0)
def goals(P):
    C=ccfg(P); T=cfg_fc(loop_templates=[scans()],exact_isa=(THR,)); T['contracts'].update(TJ)
    G=[g for g in unpack_for(P,[OBJ,CLS,THR])]+[Goal('Throw',throw,cfg=T),Goal('ThrowNew',thrownew,cfg=T),Goal('ExceptionCheck',check,cfg=T),Goal('ExceptionOccurred',occurred,cfg=T),Goal('ExceptionClear',clear,cfg=T),Goal('ExceptionDescribe',describe,cfg=T)]
    for kind in('','Nonvirtual','Static'):
        for t in TYPES:
            nm='Call%s%sMethod'%(kind,t); G+=[Goal(nm+'A: outcome',p10.dispatch(kind,t,True),cfg=C),Goal(nm+'A of an unhooked method',p10.unhooked(kind,t),cfg=C)]
            for s in('V',''): G.append(Goal(nm+(s or '(...)'),p10.form(kind,t,s),cfg=p10.formcfg(P,s)))
    return G+invoke_goals(P)
