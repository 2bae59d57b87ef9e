"""P01: local reference frames.  Whole-view contracts on the reference functions: the frame stack after the call is stated completely."""
from common import *
FILES=core_files()
FREE='jnivm::ENV.freeframes'
def frames(ex,store=None,key='localframe'):
    return get(ex,'jnivm::ENV',key,ex.W.E) if store is None else oldF(ex,store,'jnivm::ENV',key,ex.W.E)
def at(v,i): return z3.simplify(Select(v.sort().arr(v),i))
def ln(v): return v.sort().len(v)
def q_(n='q'): return Const(n,I)
def free_empty(ex,store=None):
    """invariant of the recycled frames: every one of them is empty"""
    f=frames(ex,store,'freeframes'); q=q_('qf'); return ForAll([q],Implies(And(q>=0,q<ln(f)),ln(Select(f.sort().arr(f),q))==0))
def wf_env(ex):
    world(ex); f=frames(ex,None,'freeframes'); ex.assume(ln(f)>=0); ex.assume(free_empty(ex)); lf=frames(ex); n=ln(lf)
    q=q_('qw'); ex.assume(ForAll([q],ln(Select(lf.sort().arr(lf),q))>=0)); return lf,n
def cap(ex):
    c=Const('cap',I); ex.assume(And(c>=0,c<2**31)); return c
def g_push(ex):
    lf,n=wf_env(ex); s0=ex.old()
    r=noexc(ex,lambda: jni(ex,'PushLocalFrame',cap(ex))); ex.reach()
    a=frames(ex); ex.post(r==0,'reports success'); ex.post(ln(a)==n+1,'exactly one more frame'); ex.post(ln(at(a,n))==0,'the new frame is empty')
    q=q_(); ex.post(Implies(And(q>=0,q<n),Select(a.sort().arr(a),q)==Select(lf.sort().arr(lf),q)),'all other frames untouched')
    ex.post(free_empty(ex),'recycled frames stay empty'); unchanged_except(ex,s0,{LF:[ex.W.E],FREE:[ex.W.E]})
def g_pop(ex):
    lf,n=wf_env(ex); h=handle(ex,'result'); ro=z3.simplify(resolved(ex,h)); s0=ex.old()
    r=noexc(ex,lambda: jni(ex,'PopLocalFrame',h)); ex.reach()
    a=frames(ex); m=If(n>1,n-1,IntVal(1)); base=If(n>1,ln(Select(lf.sort().arr(lf),n-2)),IntVal(0)); top=at(a,m-1)
    ex.post(ln(a)==m,'drops exactly the innermost frame and leaves at least one'); q=q_()
    ex.post(Implies(And(q>=0,q<m-1),Select(a.sort().arr(a),q)==Select(lf.sort().arr(lf),q)),'outer frames untouched')
    ex.post(ln(top)==base+If(ro!=0,1,0),'the frame below gains exactly the result')
    b=Select(lf.sort().arr(lf),n-2)
    ex.post(Implies(And(q>=0,q<base),Select(top.sort().arr(top),q)==Select(b.sort().arr(b),q)),'references of the frame below kept')
    ex.post(Implies(ro!=0,And(Select(top.sort().arr(top),base)==ro,r==ro)),'result re-registered as a local reference to the resolved object')
    ex.post(Implies(ro==0,Or(r==0,r==h)),'no object for a null or collected result')
    ex.post(free_empty(ex),'recycled frames stay empty'); unchanged_except(ex,s0,{LF:[ex.W.E],FREE:[ex.W.E],CLZ:'*'})
    ex.trust('PopLocalFrame re-registering: Object::clazz of the result may be completed from the type table')
def g_newlocal(ex):
    lf,n=wf_env(ex); h=handle(ex,'obj'); ro=z3.simplify(resolved(ex,h)); s0=ex.old()
    r=noexc(ex,lambda: jni(ex,'NewLocalRef',h)); ex.reach()
    ex.post(r==ro,'returns a local reference to the resolved object (null for none)')
    if ex.branch(ro==0): unchanged_except(ex,s0,{})
    else: pushed(ex,s0,[ro]); unchanged_except(ex,s0,{LF:[ex.W.E]})
def g_dellocal(ex):
    """whole view: frames not holding the object keep their contents, the innermost holder loses exactly one occurrence"""
    lf,n=wf_env(ex); h=handle(ex,'obj'); ro=Const('ro',I); ex.assume(ro==resolved(ex,h)); s0=ex.old(); L=lf.sort(); fr=lambda i: Select(L.arr(lf),i)
    jj=Const('jj',I); ex.scan={'frame does not hold the object':(lambda st,q: ForAll([jj],Implies(And(jj>=0,jj<fr(q).sort().len(fr(q))),Select(fr(q).sort().arr(fr(q)),jj)!=ro)),n)}
    noexc(ex,lambda: jni(ex,'DeleteLocalRef',h)); ex.reach(); a=frames(ex); A=lambda i: Select(L.arr(a),i)
    q=q_(); p=q_('p'); k=Const('k',I); S=fr(IntVal(0)).sort(); held=lambda i,j: And(j>=0,j<S.len(fr(i)),Select(S.arr(fr(i)),j)==ro)
    ex.post(ln(a)==n,'number of frames unchanged')
    unchanged_except(ex,s0,{LF:[ex.W.E]})
    # k is an arbitrary frame, p an arbitrary position
    ex.post(Implies(And(k>=0,k<n,ro==0),A(k)==fr(k)),'deleting null changes nothing')
    k2=Const('k2',I)
    ex.post(Implies(And(k>=0,k<n,k2>k,k2<n,held(k2,p)),A(k)==fr(k)),'only the innermost frame holding the object is touched')
    ex.post(Implies(And(k>=0,k<n,A(k)!=fr(k)),ln(A(k))==ln(fr(k))-1),'a touched frame loses exactly one reference')
    d=Const('d',I); j1=Const('j1',I); j2=Const('j2',I)
    # frame holding it, innermost: it must lose one occurrence of ro and keep the rest in order
    inner=And(k>=0,k<n,ro!=0,held(k,p),ForAll([q,d],Implies(And(q>k,q<n),Not(held(q,d)))))
    ex.post(Implies(inner,ln(A(k))==ln(fr(k))-1),'the innermost holder loses exactly one reference')
    ex.post(Implies(And(k>=0,k<n,ln(A(k))==ln(fr(k))-1),And(
        # element sequence: up to the first occurrence the same, shifted afterwards
        Implies(And(q>=0,q<ln(A(k)),ForAll([d],Implies(And(d>=0,d<=q),Not(held(k,d))))),Select(S.arr(A(k)),q)==Select(S.arr(fr(k)),q)))),'references before the deleted one kept in place')
    ex.post(Implies(And(k>=0,k<n,ln(A(k))==ln(fr(k))-1,q>=0,q<ln(A(k))),Or(Select(S.arr(A(k)),q)==Select(S.arr(fr(k)),q),Select(S.arr(A(k)),q)==Select(S.arr(fr(k)),q+1))),'remaining references keep their order')
    ex.post(Implies(And(k>=0,k<n,A(k)!=fr(k)),Exists([d],And(held(k,d),d<ln(fr(k)),ForAll([q],Implies(And(q>=0,q<d),Select(S.arr(A(k)),q)==Select(S.arr(fr(k)),q))),ForAll([q],Implies(And(q>=d,q<ln(A(k))),Select(S.arr(A(k)),q)==Select(S.arr(fr(k)),q+1)))))),'exactly one occurrence of exactly the given object removed')
def g_ensure(ex):
    wf_env(ex); s0=ex.old(); r=noexc(ex,lambda: jni(ex,'EnsureLocalCapacity',cap(ex))); ex.reach(); ex.post(r==0,'reports success'); unchanged_except(ex,s0,{})
def tojni(f):
    ty=f.targs()[0] if f.targs() else '?'; amb=str(f.params()[1][2])
    def body(ex):
        wf_env(ex); o=Const('o',I); ex.assume(And(o>=0,o<=ex.alloc)); s0=ex.old()
        ex.isa(OBJ,o)
        ex.store[('X','sp')]=o
        r=noexc(ex,lambda: ex.invoke(f,None,[ex.W.E,o])); ex.reach(); ex.post(r==o,'the reference handed out designates the object')
        if ex.branch(o==0): unchanged_except(ex,s0,{})
        else: pushed(ex,s0,[o]); unchanged_except(ex,s0,{LF:[ex.W.E],CLZ:[o]})
    return Goal('ToJNIType<%s> -> %s'%(ty.replace('jnivm::',''),str(f.ret())[3:-1]),body,cfg=cfg(),fns=['JNITypesObjectBase::ToJNIType<%s>'%ty])
def g_ctor(ex):
    c=[f for f in ex.P.find('jnivm::ENV::ENV') if f.d.get('body')]
    if not c: raise Unsupported('ENV constructor')
    raise Unsupported('todo')
GOALS=[Goal('PushLocalFrame',g_push,cfg=cfg()),Goal('PopLocalFrame',g_pop,cfg=cfg()),Goal('NewLocalRef',g_newlocal,cfg=cfg()),Goal('DeleteLocalRef',g_dellocal,cfg=cfg(loop_templates=[scans()])),Goal('EnsureLocalCapacity',g_ensure,cfg=cfg())]
def goals(P):
    seen=set(); ts=[]
    for f in P.find('jnivm::JNITypesObjectBase::ToJNIType'):
        if f.d.get('body') and f.targs() and 'const std::shared_ptr' in str(f.params()[1][2]):
            k=(f.targs()[0],str(f.ret()))
            if k not in seen: seen.add(k); ts.append(tojni(f))
    return unpack_for(P,[OBJ])+GOALS+ts
