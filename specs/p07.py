"""P07: object arrays"""
from arrays import *
import os
INST=os.path.join(os.path.dirname(os.path.abspath(__file__)),'inst','objarrays.cpp')
FILES=core_files()+[INST]
ACC=func('accepts',I,I,B)     # (array, object): the object has the element type of the array's dynamic class
def slot(ex,r,store=None): return data(ex,r)
def elref(ex): return ex.mem('ref',I)
def el(ex,r,i,m=None): p=data(ex,r); m=elref(ex) if m is None else m; return Select(Select(m,Ptr.blk(p)),Ptr.off(p)+i)
def oarr(ex,r,n0=None):
    """well-formed object array r"""
    n=get(ex,AV,'length',r); p=data(ex,r)
    ex.assume(And(n>=0,n<2**31,Ptr.off(p)==0,Ptr.blk(p)>0,Ptr.blk(p)<=ex.alloc,Select(ex.blksize(),Ptr.blk(p))>=n)); q=Const('qe',I)
    return n,p
def oh(ex,name='a'):
    h,r0=handle_to(ex,name,AO); r=Const(name+'_o',I); ex.assume(r==r0); n,p=oarr(ex,r); return h,r,n,p
class GetC:
    """Array<...>::Get(i) (any override): element i"""
    def __init__(s,skip=None): s.skip=skip
    def use(s,ex,fn): return True
    def apply(s,ex,n,fn,this,args):
        ex.used_contracts.add('jnivm::impl::Array::Get'); r=z3.simplify(this.ref); i=args[0].load(ex) if isinstance(args[0],LV) else args[0]; N=get(ex,AV,'length',r)
        p=data(ex,r); ex.oblige(And(i>=0,i<Select(ex.blksize(),Ptr.blk(p))),'bounds','element index inside the array'); return z3.simplify(el(ex,r,i))
class SetC:
    """Array<...>::Set(i,v) (any override): stores v if it has the element type, throws and changes nothing otherwise"""
    def use(s,ex,fn): return True
    def apply(s,ex,n,fn,this,args):
        ex.used_contracts.add('jnivm::impl::Array::Set'); r=z3.simplify(this.ref); i,v=[a.load(ex) if isinstance(a,LV) else a for a in args]; v=z3.simplify(v)
        p=data(ex,r); b=z3.simplify(Ptr.blk(p)); ex.oblige(And(i>=0,i<Select(ex.blksize(),b)),'bounds','element index inside the array')
        if not ex.is_null(v):
            if not ex.branch(Or(v==0,accepts(ex,r,v))): raise CppThrow('std::runtime_error',Opaque('exc'),ex.new_ref())
        m=elref(ex); ex.store[('M','ref')]=Store(m,b,Store(Select(m,b),z3.simplify(Ptr.off(p)+i),v)); ex.touched('mem.ref',b); return IntVal(0)
def accepts(ex,r,v):
    if ex.exact.get(r.get_id())==AO: return BoolVal(True)
    return ACC(r,v)
GS={'jnivm::impl::Array::Get':GetC(),'jnivm::impl::Array::Set':SetC(),'jnivm::impl::ArrayBaseImpl::Get':GetC(),'jnivm::impl::ArrayBaseImpl::Set':SetC()}
def elem_of(f):
    """element class of an accessor's record: Array<Y,...> -> Y, ArrayBaseImpl<Z,...> -> Z"""
    s=f.rec().base; s=s[s.index('<')+1:]
    d=0
    for k,c in enumerate(s):
        if c=='<': d+=1
        if c=='>': d-=1
        if c==',' and d==0: return s[:k]
    raise Unsupported('element class of %s'%f.rec())
def accessors(P,name):
    out=[]
    for f in P.fns.values():
        if f.d and f.d.get('body') and f.sqn in('jnivm::impl::Array::'+name,'jnivm::impl::ArrayBaseImpl::'+name): out.append(f)
    return sorted(out,key=lambda f: f.id)
def param_class(t):
    t=t.to if t.k=='ref' else t
    return t.args[0].base
def recv(ex,f):
    r=Const('r',I); ex.assume(And(r>0,r<=ex.alloc)); n,p=oarr(ex,r); i=Const('i',I); ex.assume(And(i>=0,i<n)); return r,n,p,i
def own_class(f): return 'jnivm::impl::Array<%s, void, false>'%elem_of(f)
def g_get(f):
    def body(ex):
        r,n,p,i=recv(ex,f); Z=elem_of(f); ex.assume(ex.isa(own_class(f),r)); want=Const('want',I); ex.assume(want==el(ex,r,i)); ex.isa(Z,want); ex.assume(Implies(want!=0,And(want>0,ex.isa(Z,want)))); s0=ex.old()
        a=ex.new_ref() if False else Opaque('tag')
        v=noexc(ex,lambda: ex.invoke(f,recobj(ex,f.rec().base,r),[i,a])); ex.reach(); ex.post(v==want,'the element at that index'); unchanged_except(ex,s0,{})
    return Goal('%s::Get'%short(f),body,cfg=k7())
def short(f): return f.rec().base.replace('jnivm::impl::','').replace('jnivm::','').replace('inst::','').replace(', void, false','')
def g_set(f):
    def body(ex):
        r,n,p,i=recv(ex,f); Z=elem_of(f); ex.assume(ex.isa(own_class(f),r)); v=Const('v',I); Y=param_class(f.params()[1][2]); ex.assume(And(v>=0,v<=ex.alloc)); ex.assume(Implies(v!=0,ex.isa(Y,v)))
        z=ex.isa(Z,v); direct=f.sqn=='jnivm::impl::Array::Set'
        # definition: an array only accepts objects of its element type; the most derived accessor is reached with exactly such objects
        ok=BoolVal(True) if direct else Or(v==0,And(z,ACC(r,v))); ex.assume(Implies(And(v!=0,ACC(r,v)),z)); m0=elref(ex); s0=ex.old(); b=Ptr.blk(p); q=Const('q',I); tl=TmpLV(v,f.params()[1][2].to)
        try: ex.invoke(f,recobj(ex,f.rec().base,r),[i,tl])
        except CppThrow: ex.reach(); ex.post(Not(ok),'rejects only an object of another type'); unchanged_except(ex,s0,{},name='nothing changes when rejected'); return
        ex.reach(); ex.post(ok,'accepts only objects of the element type'); m=elref(ex); ex.post(Select(Select(m,b),i)==v,'element i is the object'); ex.post(Implies(q!=i,Select(Select(m,b),q)==Select(Select(m0,b),q)),'no other element changes'); unchanged_except(ex,s0,{'mem.ref':[b]})
    return Goal('%s::Set'%short(f),body,cfg=k7())
def k7(**kw):
    k=cfg_fc(**kw); k['contracts'].update(TJ); k['contracts'].update(GS); return k
def g_oget(ex):
    world(ex); h,r,n,p=oh(ex); i=Const('i',I); ex.assume(And(i>=0,i<n)); want=Const('want',I); ex.assume(And(want==el(ex,r,i),want>=0,want<=ex.alloc)); ex.isa(WEAK,want); s0=ex.old()
    v=noexc(ex,lambda: jni(ex,'GetObjectArrayElement',h,i)); ex.reach(); ex.post(v==want,'a reference to element i, null if unset')
    if not ex.branch(want==0): pushed(ex,s0,[want]); unchanged_except(ex,s0,{LF:[ex.W.E],CLZ:[want]})
    else: unchanged_except(ex,s0,{})
def g_oset(ex):
    world(ex); h,r,n,p=oh(ex); i=Const('i',I); ex.assume(And(i>=0,i<n)); hv=handle(ex,'v'); rv=Const('rv',I); ex.assume(rv==resolved(ex,hv)); b=Ptr.blk(p); m0=elref(ex); s0=ex.old(); q=Const('q',I)
    try: jni(ex,'SetObjectArrayElement',h,i,hv)
    except CppThrow: ex.reach(); ex.post(And(rv!=0,Not(accepts(ex,r,rv))),'rejects only an object of another type'); unchanged_except(ex,s0,{},name='nothing changes when rejected'); return
    ex.reach(); m=elref(ex); ex.post(Or(rv==0,accepts(ex,r,rv)),'an object of the wrong type is rejected'); ex.post(Select(Select(m,b),i)==rv,'element i is the object the handle resolves to'); ex.post(Implies(q!=i,Select(Select(m,b),q)==Select(Select(m0,b),q)),'no other element changes'); unchanged_except(ex,s0,{'mem.ref':[b]})
def inst_array(ex,n,fn,f,lv,args):
    """Class::InstantiateArray(env,n): a new array of n unset elements (checked below for the library's own implementation)"""
    ex.trust('InstantiateArray of a class returns a new array of the length asked for with unset elements (proved for the function the library installs; a user-supplied one is assumed to)')
    N=args[-1]; N=N.load(ex) if isinstance(N,LV) else N; r=ex.new_ref(); b=ex.new_block(N); ex.assume(ex.isa(AO,r)); ex.assume(ex.isa(AV,r)); ex.assume(And(Not(ex.isa(WEAK,r)),Not(ex.isa(GLOB,r))))
    F(ex,AV,'length',r).put(ex,N); F(ex,AV,'data',r).put(ex,ex.ptr2void(Ptr.mkp(b,IntVal(0)))); m=elref(ex); ex.store[('M','ref')]=Store(m,b,z3.K(I,IntVal(0))); ex.touched('mem.ref',b); return r
def fill_templates(ex,ent,info,n,index,d):
    out={}; m=info.mod.get(('M','ref')); q=Const('qf',I)
    if not isinstance(m,dict): return out
    for sx,b in m.items():
        for k,g,e in d['ints']+d['ptrs']:
            out['elements before %s are set [%s]'%(d['name'](k),sx[:20])]=lambda st,g=g,b=b,e=e: ForAll([q],Implies(And(q>=e,q<g(st)),Select(Select(st.store[('M','ref')],b),q)==ex.init_obj))
            out['elements from %s are set [%s]'%(d['name'](k),sx[:20])]=lambda st,g=g,b=b,e=e: ForAll([q],Implies(And(q>=g(st),q<e),Select(Select(st.store[('M','ref')],b),q)==ex.init_obj))
            if ent.get(k) is not None: out['elements (%s,entry] set [%s]'%(d['name'](k),sx[:20])]=lambda st,g=g,b=b,e=e: ForAll([q],Implies(And(q>g(st),q<=e),Select(Select(st.store[('M','ref')],b),q)==ex.init_obj))
    return out
def g_new(ex):
    world(ex); E=ex.W.E; n=Const('n',I); ex.assume(And(n>=0,n<2**31)); hc,rc0=handle_to(ex,'c',CLS); rc=Const('rc',I); ex.assume(rc==rc0); hi=handle(ex,'init'); ri=Const('ri',I); ex.assume(ri==resolved(ex,hi)); ex.init_obj=ri
    nm=get(ex,CLS,'nativeprefix',rc); ex.assume(slen(nm)<2**30); names=[]; ex.fc_hook=lambda ex,E,s: names.append(s); q=Const('q',I); s0=ex.old(); a0=Int('alloc!0')
    try: r=jni(ex,'NewObjectArray',n,hc,hi)
    except CppThrow as x: ex.reach(); ex.post(And(ri!=0,n>0),'throws only for an initial object of the wrong type'); return
    ex.reach(); ex.post(And(r>a0,ex.isa(AO,r)),'a new object array'); ex.post(get(ex,AV,'length',r)==n,'the length asked for'); p=data(ex,r); b=Ptr.blk(p)
    ex.post(And(b>a0,Select(ex.blksize(),b)>=Ptr.off(p)+n),'storage of its own'); ex.post(Implies(And(q>=0,q<n),el(ex,r,q)==ri),'every element is the initial object (null without one)')
    ex.post(BoolVal(len(names)==1),'one class looked up')
    if len(names)==1:
        w=names[0]; L=slen(nm); c0=ex.str_at(nm,IntVal(0)); arr_=c0==ord('[')
        ex.post(slen(w)==If(arr_,L+1,L+3),'its class is named after the element class'); ex.post(sat(w,0)==ord('['),'its class is an array class')
        ex.post(Implies(And(q>=0,q<L),If(arr_,sat(w,q+1)==sat(nm,q),sat(w,q+2)==sat(nm,q))),'its class is the array class of the element class'); ex.post(Implies(Not(arr_),And(sat(w,1)==ord('L'),sat(w,L+2)==ord(';'))),'its class is the array class of the element class (delimiters)')
        ex.post(get(ex,OBJ,'clazz',r)==ex.fc_ret[-1],'its class is recorded')
    pushed(ex,s0,[r]); unchanged_except(ex,s0,{**TREE,LF:[E]},objects=True)
def g_utility(f):
    """the InstantiateArray function the library installs for an element class"""
    def body(ex):
        W=world(ex); nm=Const('S',Str); ex.assume(And(slen(nm)>=0,nonul(nm))); f0=f; ex.fc_hook=None
        noexc(ex,lambda: ex.invoke(f,None,[W.E,TmpLV(nm,f.params()[1][2].to)])); c=ex.fc_ret[-1]; tok=get(ex,CLS,'InstantiateArray',c)
        lam=[(t,l) for t,l in ex.lambdas.items()]
        ex.post(tok!=0,'an implementation is installed')
        if not lam: ex.reach(); return
        lam=lam[-1][1]; N=Const('N',I); ex.assume(And(N>=0,N<2**31)); ex.assume(alive(c)); s1=ex.old(); a1=ex.alloc; q=Const('q',I)
        r=noexc(ex,lambda: ex.invoke_lambda(lam,[W.E,N])); ex.reach(); r=z3.simplify(r.ref) if isinstance(r,Rec) else r; b=Ptr.blk(data(ex,r))
        ex.post(And(r>a1,ex.isa(AO,r)),'a new array'); ex.post(ex.isa('jnivm::impl::Array<%s, void, false>'%targ(f),r),'of the element class'); ex.post(get(ex,AV,'length',r)==N,'of the length asked for'); ex.post(Implies(And(q>=0,q<N),el(ex,r,q)==0),'every element unset'); ex.post(And(b>a1,Ptr.off(data(ex,r))==0,Select(ex.blksize(),b)>=N),'storage of its own'); ex.post(get(ex,OBJ,'clazz',r)==c,'class recorded')
    return Goal('InstantiateArray installed for %s'%targ(f),body,cfg=k7(stdfunction=inst_array))
def targ(f):
    s=f.rec().base; return s[s.index('<')+1:s.rindex(',')]
def goals(P):
    G=unpack_for(P,[AO,CLS,OBJ])+[Goal('GetObjectArrayElement',g_oget,cfg=k7()),Goal('SetObjectArrayElement',g_oset,cfg=k7()),Goal('NewObjectArray',g_new,cfg=k7(loop_templates=[fill_templates],stdfunction=inst_array,loops_per_path=True))]
    for f in accessors(P,'Get'): G.append(g_get(f))
    for f in accessors(P,'Set'): G.append(g_set(f))
    for f in sorted([f for f in P.fns.values() if f.sqn=='jnivm::utility_::utility' and f.d.get('body')],key=lambda f: f.id): G.append(g_utility(f))
    return G
