"""The symbolic pre-state shared by the specifications: a well-formed VM / environment, handles, and the contract of handle resolution."""
from verify import *
from interp import *
import os
def core_files():
    r=prog_root(); d='src/jnivm/internal'
    return ['src/jnivm/'+f for f in sorted(os.listdir(os.path.join(r,'src/jnivm'))) if f.endswith('.cpp')]+[d+'/'+f for f in sorted(os.listdir(os.path.join(r,d))) if f.endswith('.cpp')]
def prog_root():
    import prog; return prog.ROOT
OBJ='jnivm::Object'
WEAK='jnivm::Weak'; GLOB='jnivm::Global'
def fieldty(ex,rec,name):
    f=ex.P.field(rec,name)
    if f is None: raise Unsupported('field %s::%s not found'%(rec,name))
    return f['t']
def fkey(ex,rec,name): 
    fieldty(ex,rec,name); return rec+'.'+name
def F(ex,rec,name,ref):
    """location (or sub-object) of a field of the object ref"""
    ty=fieldty(ex,rec,name); r=ex.P.recs[rec]; idx=[f['n'] for f in r['fields']].index(name)
    return ex.fieldLV(ref,rec,name,idx,ty)
def get(ex,rec,name,ref): return F(ex,rec,name,ref).load(ex)
def H(ex,store,rec,name):
    """heap map of a field in a saved store"""
    k=('H',fkey(ex,rec,name)); ex.hmap(k[1],ex.sort(fieldty(ex,rec,name)))
    return store.get(k,ex.init_heap.get(k))
def oldF(ex,store,rec,name,ref): return z3.simplify(Select(H(ex,store,rec,name),ref))
class World: pass
def world(ex, returnnull=None, wfframes=True):
    """JNIEnv of an environment of a VM: function table and back pointers as established by the constructors (property P22)"""
    W=World(); ex.W=W
    ex.cfg['ReturnNull']=returnnull
    W.E=Const('ENV',I); ex.assume(And(W.E>0,W.E<=ex.alloc))
    W.env=F(ex,'jnivm::ENV','env',W.E).ref
    F(ex,'_JNIEnv','functions',W.env)
    tblref=ex.subref('jnivm::ENV','ninterface',W.E)
    ex.assume(get(ex,'_JNIEnv','functions',W.env)==tblref)
    cell=HeapLV('cell.JNINativeInterface',tblref,fieldty(ex,'jnivm::ENV','ninterface'),TBL)
    ex.assume(Select(cell.load(ex),IntVal(0))==W.E); ex.assume(W.E!=0)
    W.V=get(ex,'jnivm::ENV','vm',W.E); ex.assume(And(W.V>0,W.V!=W.E))
    W.frames0=get(ex,'jnivm::ENV','localframe',W.E)
    if wfframes: ex.assume(W.frames0.sort().len(W.frames0)>=1)
    ex.trust('well-formed environment: JNIEnv::functions is the table of its ENV and entry 0 leads back to it (proved as P22), at least one local frame is open (proved as P01)')
    return W
def slotfn(ex, name, returnnull=None):
    rn=ex.cfg.get('ReturnNull') if returnnull is None else returnnull
    if rn is None:
        f=ex.P.table(False).get(name); g=ex.P.table(True).get(name)
        if g is not f and (g is None or f is None or ex.branch(Const('ReturnNullTable',B))): f=g
    else: f=ex.P.table(rn).get(name)
    if f is None: raise Unsupported('table entry %s not found'%name)
    return f
def jni(ex, name, *args):
    """call of a JNI function through the table of the current source; converts the arguments to the parameter sorts"""
    f=slotfn(ex,name); a=[ex.W.env]+list(args)
    a=[ex.convert(x,ex.sort(p[2])) if z3.is_expr(x) else x for x,p in zip(a,f.params())]
    con=ex.contracts.get(f.sqn)
    return ex.invoke(f,None,a)
# ---- handles
def wrapped(ex,rec,ref,store=None):
    if store is None: return get(ex,rec,'wrapped',ref)
    return oldF(ex,store,rec,'wrapped',ref)
def handle_inv(ex,o):
    """representation invariant of reference objects (established by NewGlobalRef / NewWeakGlobalRef, property P02): they wrap a plain object"""
    ww=wrapped(ex,WEAK,o); gw=wrapped(ex,GLOB,o)
    w=ex.isa(WEAK,o); g=ex.isa(GLOB,o)
    for x in(ww,gw): ex.isa(WEAK,x); ex.isa(GLOB,x)
    ex.assume(Implies(o!=0,And(Not(And(w,g)))))
    ex.assume(Implies(And(o!=0,w),And(ww>=0,Not(ex.isa(WEAK,ww)),Not(ex.isa(GLOB,ww)))))
    ex.assume(Implies(And(o!=0,g),And(gw>0,Not(ex.isa(WEAK,gw)),Not(ex.isa(GLOB,gw)))))
    ex.assume(Not(ex.isa(WEAK,IntVal(0)))); ex.assume(Not(ex.isa(GLOB,IntVal(0))))
def resolved(ex,o):
    """the object a handle designates (0 for null or collected)"""
    o=z3.simplify(o)
    if ex.is_null(o): return IntVal(0)
    ww=wrapped(ex,WEAK,o); gw=wrapped(ex,GLOB,o)
    w=ex.isa(WEAK,o); g=ex.isa(GLOB,o)
    return If(o==0,IntVal(0),If(w,If(And(ww!=0,alive(ww)),ww,IntVal(0)),If(g,gw,o)))
def handle(ex,name='h',cls=None,nonnull=False):
    """an arbitrary valid handle: null, local, global or weak global reference"""
    h=Const(name,I); ex.assume(And(h>=0,h<=ex.alloc)); handle_inv(ex,h)
    if nonnull: ex.assume(h>0)
    return h
def handle_to(ex,name,cls,nonnull=True):
    """a handle that resolves to an object of class cls (or null if not nonnull)"""
    h=handle(ex,name); r=resolved(ex,h)
    ww=wrapped(ex,WEAK,h); gw=wrapped(ex,GLOB,h)
    for x in(h,ww,gw): ex.isa(cls,x)
    ok=isa_res(ex,cls,h)
    ex.assume(And(r!=0,ok) if nonnull else Implies(r!=0,ok))
    return h,r
def isa_res(ex,cls,o):
    """class membership of the resolved object, stated case-wise on the handle"""
    o=z3.simplify(o)
    if ex.is_null(o): return BoolVal(False)
    ww=wrapped(ex,WEAK,o); gw=wrapped(ex,GLOB,o); w=ex.isa(WEAK,o); g=ex.isa(GLOB,o)
    return If(w,ex.isa(cls,ww),If(g,ex.isa(cls,gw),ex.isa(cls,o)))
class UnpackContract:
    """UnpackJObject<T>(o): the shared_ptr to the resolved object; throws iff that is non-null and not a T.
    (T = Weak/Global: no unwrapping, throws iff o is non-null and not a reference object of that kind)"""
    def use(self,ex,fn): return True
    @staticmethod
    def targ(ex,fn):
        f=ex.P.fns.get(fn['id'])
        if f is None or not f.targs(): raise Unsupported('UnpackJObject instance')
        return f.targs()[0]
    def apply(self,ex,n,fn,this,args):
        T=self.targ(ex,fn); o=args[0]
        o=o.load(ex) if isinstance(o,LV) else o
        o=z3.simplify(o.ref if isinstance(o,Rec) else o)
        ex.used_contracts.add('UnpackJObject<%s>'%T)
        if ex.is_null(o): return IntVal(0)
        if T in(WEAK,GLOB):
            if ex.branch(o==0): return IntVal(0)
            if ex.branch(ex.isa(T,o)): return o
            raise CppThrow('std::runtime_error',Opaque('exc'),ex.new_ref())
        if o.get_id() in ex.exact and ex.exact[o.get_id()] not in(WEAK,GLOB): r=o
        else: handle_inv(ex,o); r=resolved(ex,o)
        ok=ex.isa(T,o) if r is o else isa_res(ex,T,o)
        if T==OBJ: ok=BoolVal(True)
        if ex.branch(r==0): return IntVal(0)
        if not ex.branch(ok): raise CppThrow('std::runtime_error',Opaque('exc'),ex.new_ref())
        # keep the result a plain term
        for c,x in((Not(Or(ex.isa(WEAK,o),ex.isa(GLOB,o))),o),):
            if not r.eq(o) and not ex.feasible(Not(c)): r=x
        if not (z3.is_const(r) or r.num_args()<=1 and not z3.is_app_of(r,z3.Z3_OP_ITE)):
            v=ex.fresh(I,'obj'); ex.assume(v==r); ex.assume(v>0); ex.assume(Implies(ok,ex.isa(T,v))); ex.assume(And(Not(ex.isa(WEAK,v)),Not(ex.isa(GLOB,v)))); r=v
        return r
CON={'UnpackJObject':UnpackContract()}
def cfg(**kw):
    c=dict(contracts=dict(CON),rec_depth=2,disjoint=['jnivm::String','jnivm::Class','jnivm::Method','jnivm::Field','jnivm::Throwable','jnivm::Weak','jnivm::Global'])
    c.update(kw); return c
def unpack_goals(types=None):
    """the contract of UnpackJObject<T> checked against its body, for every instance in the program"""
    def mk(T):
        def body(ex):
            fs=[f for f in ex.P.find('UnpackJObject') if f.targs() and f.targs()[0]==T and f.d.get('body')]
            if not fs: raise Unsupported('UnpackJObject<%s> not found'%T)
            o=Const('o',I); ex.assume(And(o>=0,o<=ex.alloc)); handle_inv(ex,o)
            for x in(o,wrapped(ex,WEAK,o),wrapped(ex,GLOB,o)): ex.isa(T,x)
            raw=T in(WEAK,GLOB); r=o if raw else resolved(ex,o); ok=ex.isa(T,o) if raw else isa_res(ex,T,o)
            if T==OBJ: ok=BoolVal(True); ex.assume(Implies(r!=0,isa_res(ex,T,o)))
            s0=ex.old()
            try: v=ex.invoke(fs[0],None,[o])
            except CppThrow: ex.reach(); ex.post(And(r!=0,Not(ok)),'rejects only an object of another type'); return
            ex.reach(); ex.post(v==r,'result is the resolved object'); ex.post(Implies(r!=0,ok),'result has the requested type')
            unchanged(ex,s0)
        return Goal('contract UnpackJObject<%s>'%T,body,cfg=dict(rec_depth=3,disjoint=cfg()['disjoint']),fns=['UnpackJObject<%s>'%T])
    return mk
def unpack_for(P,only=None):
    ts=[]
    for f in P.find('UnpackJObject'):
        if f.targs() and f.d.get('body') and f.targs()[0] not in ts: ts.append(f.targs()[0])
    mk=unpack_goals()
    return [mk(t) for t in sorted(ts) if only is None or t in only]
# ---- frames
def unchanged(ex,s0,except_=(),name='frame'):
    """every heap map not listed is unchanged (for objects that existed before)"""
    for k,v in list(ex.store.items()):
        if k[0] not in('H','M'): continue
        if k[1] in except_ or k[1].startswith('$'): continue
        o=s0.get(k,ex.init_heap.get(k))
        if o is None or o.eq(v): continue
        q=Const('q',I)
        ex.post(Implies(q<=ex.alloc0 if hasattr(ex,'alloc0') else q<=Int('alloc!0'),Select(v,q)==Select(o,q)),'%s: %s unchanged'%(name,k[1]))
def unchanged_except(ex,s0,allow,name='frame',objects=False):
    """allow: {mapkey: [refs]}: only these entries may differ (among objects that existed before); maps absent from allow are unchanged"""
    for k,v in list(ex.store.items()):
        if k[0] not in('H','M') or k[1].startswith('$'): continue
        o=s0.get(k,ex.init_heap.get(k))
        if o is None or o.eq(v): continue
        key=k[1] if k[0]=='H' else 'mem.'+k[1]
        a=allow.get(key,[])
        if a=='*': continue
        q=Const('q',I)
        ex.post(Implies(And(q<=Int('alloc!0'),*([q>0] if objects else []),*[q!=r for r in a]),Select(v,q)==Select(o,q)),'%s: only the specified part of %s changes'%(name,key))
LF='jnivm::ENV.localframe'; CLZ='jnivm::Object.clazz'
def pushed(ex,s0,refs,store=None,E=None):
    """the innermost frame got exactly these references appended, other frames unchanged"""
    E=ex.W.E if E is None else E
    a=oldF(ex,s0,'jnivm::ENV','localframe',E); b=get(ex,'jnivm::ENV','localframe',E); so=a.sort(); n=so.len(a)
    fa=z3.simplify(Select(so.arr(a),n-1)); fb=z3.simplify(Select(so.arr(b),n-1)); fs=fa.sort(); q=Const('q',I)
    ex.post(so.len(b)==n,'number of local frames unchanged')
    ex.post(Implies(And(q>=0,q<n-1),Select(so.arr(b),q)==Select(so.arr(a),q)),'outer local frames unchanged')
    ex.post(fs.len(fb)==fs.len(fa)+len(refs),'innermost frame grows by %d'%len(refs))
    ex.post(Implies(And(q>=0,q<fs.len(fa)),Select(fs.arr(fb),q)==Select(fs.arr(fa),q)),'earlier local references kept')
    for i,r in enumerate(refs): ex.post(Select(fs.arr(fb),fs.len(fa)+i)==r,'new local reference recorded in the innermost frame')
def noexc(ex,thunk,what='does not throw'):
    try: return thunk()
    except CppThrow as e: ex.post(BoolVal(False),'%s (throws %s)'%(what,e.ty)); raise PathEnd()
def scans(*names):
    """loop template: for the goal's scan predicates ex.scan[name]=(P, N) the candidates 'P holds for all indices visited so far', for every counter or iterator of the loop, in either direction"""
    def t(ex,ent,info,n,index,d):
        out={}; q=Const('qs',I)
        for nm,(P,N) in getattr(ex,'scan',{}).items():
            for k,g,e in d['ints']+d['ptrs']:
                v=d['name'](k)
                out['%s for [entry,%s)'%(nm,v)]=lambda st,g=g,e=e,P=P: ForAll([q],Implies(And(q>=e,q<g(st)),P(st,q)))
                out['%s for [0,%s)'%(nm,v)]=lambda st,g=g,P=P: ForAll([q],Implies(And(q>=0,q<g(st)),P(st,q)))
                out['%s for (%s,entry]'%(nm,v)]=lambda st,g=g,e=e,P=P: ForAll([q],Implies(And(q<=e,q>g(st)),P(st,q)))
                if N is not None:
                    out['%s for [%s,end)'%(nm,v)]=lambda st,g=g,P=P: ForAll([q],Implies(And(q>=g(st),q<N),P(st,q)))
                    out['%s for (%s,end)'%(nm,v)]=lambda st,g=g,P=P: ForAll([q],Implies(And(q>g(st),q<N),P(st,q)))
                    out['%s for last [entry,%s)'%(nm,v)]=lambda st,g=g,e=e,P=P: ForAll([q],Implies(And(q>=N-g(st),q<N-e),P(st,q)))
        return out
    return t
def mapscans(ex,ent,info,n,index,d):
    """loop template for iterations over a map: 'P holds for every key visited so far', for the goal's predicates ex.mapscan[name]=P(state,key)"""
    out={}
    for nm,P in getattr(ex,'mapscan',{}).items():
        for k,v in d['others']:
            if z3.is_array(v) and v.sort().range()==B:
                q=Const('qv',v.sort().domain()); out['%s for every key in %s'%(nm,d['name'](k))]=lambda st,k=k,q=q,P=P: ForAll([q],Implies(Select(st.store[k],q),P(st,q)))
    return out
CLS='jnivm::Class'; NSP='jnivm::Namespace'
def wf_tree(ex,V=None):
    """well-formedness of the class tables: every entry is a class / namespace object.  Returns {name: formula} over the current store"""
    V=ex.W.V if V is None else V; n=Const('wn',I); i=Const('wi',I); out={}
    isac=func('isa_'+CLS,I,B); isaw=func('isa_'+WEAK,I,B); isag=func('isa_'+GLOB,I,B)
    def m(rec,f):
        ty=fieldty(ex,rec,f); return ex.hmap(fkey(ex,rec,f),ex.sort(ty))
    def el(h,x): v=Select(h,x); so=v.sort(); return so.len(v),Select(so.arr(v),i)
    for rec,f,c in((NSP,'namespaces',False),(NSP,'classes',True),(CLS,'classes',True)):
        h=m(rec,f); l,e=el(h,n)
        out['%s.%s entries are objects'%(rec,f)]=ForAll([n,i],Implies(And(i>=0,i<l),And(e>0,isac(e),Not(isaw(e)),Not(isag(e))) if c else e>0),patterns=[e])
    h=m('jnivm::VM','classes'); mv=Select(h,V); k=Const('wk',Str); e=Select(mv.sort().val(mv),k)
    out['class table entries are classes']=ForAll([k],Implies(Select(mv.sort().dom(mv),k),And(e>0,isac(e),Not(isaw(e)),Not(isag(e)))),patterns=[Select(mv.sort().dom(mv),k)])
    return out
def tree_templates(ex,ent,info,n,index,d):
    """loop candidates: well-formedness of the class tables; variables that hold a class or namespace"""
    out={}
    if not hasattr(ex,'W') or not ex.W.__dict__.get('tree'): return out
    for nm in wf_tree(ex): out[nm]=lambda st,nm=nm: wf_tree(st)[nm]
    for k,v in d['others']+[(k,e) for k,g,e in d['ints'] if not isinstance(ent[k],Iter)]:
        if v.sort()!=I: continue
        out['%s!=0'%d['name'](k)]=lambda st,k=k: st.store[k]!=0
        out['%s is null or a class'%d['name'](k)]=lambda st,k=k: Or(st.store[k]==0,And(st.store[k]>0,*[ (f if j==0 else Not(f)) for j,f in enumerate(func('isa_'+c,I,B)(st.store[k]) for c in(CLS,WEAK,GLOB))]))
    return out
def assume_tree(ex):
    ex.W.tree=True; nsref(ex)
    for c in(CLS,WEAK,GLOB): ex.isa(c,IntVal(0))
    for f in wf_tree(ex).values(): ex.assume(f)
def post_tree(ex):
    for nm,f in wf_tree(ex).items(): ex.post(f,'invariant kept: '+nm)
def nsref(ex):
    r=F(ex,'jnivm::VM','np',ex.W.V).ref; return r
class FindClassContract:
    """InternalFindClass(ENV*,name,returnZero,trace): an existing or newly created class whose full name is `name`; only the class
    and namespace tables may change, and only by adding new objects; null (tables unchanged) is possible only in return-null mode.
    Used as an assumption by the callers; checked separately by P09."""
    TABLES=(('jnivm::VM','classes'),(NSP,'namespaces'),(NSP,'classes'),(CLS,'classes'))
    def use(self,ex,fn):
        f=ex.P.fns.get(fn['id'])
        if f is None or f.d is None or len(f.params())!=4: return False
        t=str(f.params()[0][2]); return 'ENV' in t and 'JNIEnv' not in t
    def apply(self,ex,n,fn,this,args):
        ex.used_contracts.add('jnivm::InternalFindClass')
        E,cs,rz=args[0],args[1],args[2]
        cs=cs.load(ex) if isinstance(cs,LV) else cs
        rz=rz.load(ex) if isinstance(rz,LV) else rz
        V=get(ex,'jnivm::ENV','vm',E); s=ex.cstr(cs); a0=ex.alloc
        held=getattr(ex,'fc_hook',None)
        if held: held(ex,E,s)
        if ex.branch(ex.fresh(B,'fc_known')):
            r=ex.fresh(I,'cls'); ex.assume(And(r>0,r<=ex.alloc)); self.facts(ex,r,s); ex.__dict__.setdefault('fc_ret',[]).append(r); return r
        if ex.branch(ex.truth(rz)): return IntVal(0)
        na=ex.fresh(I,'alloc'); ex.assume(na>a0); ex.alloc=na
        for rec,f in self.TABLES:
            ty=fieldty(ex,rec,f); k=fkey(ex,rec,f); h=ex.hmap(k,ex.sort(ty))
            if rec=='jnivm::VM': ex.store[('H',k)]=Store(h,V,ex.fresh(ex.sort(ty),'tbl')); ex.touched(k,V)
            else: ex.store[('H',k)]=ex.fresh(h.sort(),'tbl'); ex.touched(k,'*')
        r=ex.fresh(I,'cls'); ex.assume(And(r>a0,r<=na)); self.facts(ex,r,s)
        for f in('methods','fields'):
            v=get(ex,CLS,f,r); ex.assume(v.sort().len(v)==0)
        ex.__dict__.setdefault('fc_ret',[]).append(r); nat=get(ex,CLS,'natives',r); ks=Const('ks',Str); ex.assume(ForAll([ks],Not(Select(nat.sort().dom(nat),ks))))
        return r
    def facts(self,ex,r,s):
        ex.assume(ex.isa(CLS,r)); ex.assume(Not(ex.isa(WEAK,r))); ex.assume(Not(ex.isa(GLOB,r)))
        v=get(ex,CLS,'nativeprefix',r); ex.assume(v==s); ex.assume(alive(r))
        ex.trust('InternalFindClass is used by its contract (class with that full name; only class and namespace tables change; checked by P09)')
FC={'jnivm::InternalFindClass':FindClassContract()}
TREE={'jnivm::VM.classes':'*',NSP+'.namespaces':'*',NSP+'.classes':'*',CLS+'.classes':'*'}
def cfg_fc(**kw):
    c=cfg(**kw); c['contracts'].update(FC); return c
def held_balanced(ex,s0):
    """every lock has the same hold count as before"""
    h=ex.store.get(('H','$held')); 
    if h is None: return
    o=s0.get(('H','$held'),ex.init_heap.get(('H','$held'))); q=Const('ql',I)
    if not h.eq(o): ex.post(Select(h,q)==Select(o,q),'every lock taken is released')
def vec(v): return v.sort()
def appended(ex,a,b,elems,what):
    """b == a + elems"""
    so=a.sort(); q=Const('q',I); n=so.len(a)
    ex.post(so.len(b)==n+len(elems),'%s grows by exactly %d'%(what,len(elems)))
    ex.post(Implies(And(q>=0,q<n),Select(so.arr(b),q)==Select(so.arr(a),q)),'earlier entries of %s kept'%what)
    for i,e in enumerate(elems): ex.post(Select(so.arr(b),n+i)==e,'new entry appended to %s'%what)
def removed_first(ex,a,b,x,what):
    """b == a without its first occurrence of x (a itself when x is not in it)"""
    so=a.sort(); q=Const('q',I); p=Const('p',I); d=Const('d',I); n=so.len(a); A=lambda i: Select(so.arr(a),i); Bq=lambda i: Select(so.arr(b),i)
    first=And(p>=0,p<n,A(p)==x,ForAll([d],Implies(And(d>=0,d<p),A(d)!=x)))
    ex.post(Implies(first,so.len(b)==n-1),'%s loses exactly one entry'%what)
    ex.post(Implies(And(first,q>=0,q<p),Bq(q)==A(q)),'entries before it kept')
    ex.post(Implies(And(first,q>=p,q<n-1),Bq(q)==A(q+1)),'entries after it kept in order')
    ex.post(Implies(ForAll([d],Implies(And(d>=0,d<n),A(d)!=x)),b==a),'nothing removed when it is not there')
class ToJNIContract:
    """ToJNIType(env,o): records o in the innermost local frame (unless null), may complete its Object::clazz, returns o.  Proved for every instance by P01."""
    def use(self,ex,fn):
        f=ex.P.fns.get(fn['id']); return bool(f is not None and f.d is not None and f.targs() and len(f.params())==2 and 'const std::shared_ptr' in str(f.params()[1][2]))
    def apply(self,ex,n,fn,this,args):
        ex.used_contracts.add('jnivm::JNITypesObjectBase::ToJNIType')
        E,o=args[0],args[1]; o=o.load(ex) if isinstance(o,LV) else o
        o=z3.simplify(o)
        if ex.is_null(o) or ex.branch(o==0): return IntVal(0)
        lv=F(ex,'jnivm::ENV','localframe',E); fr=lv.load(ex); so=fr.sort(); nn=so.len(fr); ex.oblige(nn>=1,'bounds','a local frame is open')
        top=Select(so.arr(fr),nn-1); ts=top.sort()
        lv.put(ex,so.mkv(nn,Store(so.arr(fr),nn-1,ts.mkv(ts.len(top)+1,Store(ts.arr(top),ts.len(top),o)))))
        c=get(ex,OBJ,'clazz',o); c2=ex.fresh(I,'clz'); ex.assume(c2>=0); ex.assume(Implies(And(c!=0,alive(c)),c2==c)); F(ex,OBJ,'clazz',o).put(ex,c2)
        return o
TJ={'jnivm::JNITypesObjectBase::ToJNIType':ToJNIContract()}
def writers(P,fields):
    """functions of the analysed sources that assign one of these (record, field) pairs directly"""
    out={}
    def lhs(n):
        while n is not None and n.get('k') in('ImplicitCastExpr','ParenExpr'): n=n['c'][0]
        return n
    def walk(n,f):
        if isinstance(n,dict):
            t=None
            if n.get('k')=='BinaryOperator' and n.get('op')=='=': t=lhs(n['c'][0])
            elif n.get('k')=='CXXOperatorCallExpr' and (n.get('fn') or {}).get('qn','').endswith('operator=') and n.get('args'): t=lhs(n['args'][0])
            if t is not None and t.get('k')=='MemberExpr' and (t.get('frec'),t.get('field')) in fields: out.setdefault(f.sqn,set()).add((t['frec'],t['field']))
            for v in n.values():
                if isinstance(v,(dict,list)): walk(v,f)
        elif isinstance(n,list):
            for v in n: walk(v,f)
    for f in P.fns.values():
        if f.d is not None and f.d.get('body'): walk(f.d['body'],f)
    return out
READERS={'begin','end','find','front','back','data','at','rbegin','rend','cbegin','cend','equal_range','c_str'}
def mutators(P,fields):
    """functions of the analysed sources that assign one of these (record, field) pairs or call a modifying member function on it"""
    out={}
    def lhs(n):
        while isinstance(n,dict) and n.get('k') in('ImplicitCastExpr','ParenExpr','MaterializeTemporaryExpr','ExprWithCleanups') and n.get('c'): n=n['c'][0]
        return n
    def hit(n,f):
        n=lhs(n)
        if isinstance(n,dict) and n.get('k')=='MemberExpr' and (n.get('frec'),n.get('field')) in fields: out.setdefault(f.sqn,set()).add(n['frec']+'::'+n['field'])
    def walk(n,f):
        if isinstance(n,dict):
            k=n.get('k'); fn=n.get('fn') or {}
            if k in('BinaryOperator','CompoundAssignOperator') and n.get('op','').endswith('=') and n.get('op') not in('==','!=','<=','>='): hit(n['c'][0],f)
            elif k=='CXXOperatorCallExpr' and n.get('args') and not fn.get('constm') and not fn.get('static',True) and not(fn.get('n')=='operator[]' and 'map' not in fn.get('qn','')): hit(n['args'][0],f)
            elif k=='CXXMemberCallExpr' and not fn.get('constm') and fn.get('n') not in READERS:
                c=lhs(n.get('callee') or {})
                if isinstance(c,dict) and c.get('c'): hit(c['c'][0],f)
            elif k=='CallExpr' and fn.get('qn') in('std::move','std::swap','std::exchange','std::forward','std::addressof'):
                for a in n.get('args',[]): hit(a,f)
            for v in n.values():
                if isinstance(v,(dict,list)): walk(v,f)
        elif isinstance(n,list):
            for v in n: walk(v,f)
    for f in P.fns.values():
        if f.d is not None and f.d.get('body'): walk(f.d['body'],f)
    return out
def only_called_from(P,roots):
    """the functions of the program all of whose callers are (transitively) among roots"""
    callers={}
    def walk(n,f):
        if isinstance(n,dict):
            if isinstance(n.get('fn'),dict) and n['fn'].get('id'): 
                g=P.fns.get(n['fn']['id'])
                if g is not None: callers.setdefault(g.sqn,set()).add(f.sqn)
            for v in n.values():
                if isinstance(v,(dict,list)): walk(v,f)
        elif isinstance(n,list):
            for v in n: walk(v,f)
    for f in P.fns.values():
        if f.d is not None and f.d.get('body'): walk(f.d['body'],f)
    S=set(roots); ch=True
    while ch:
        ch=False
        for g,cs in callers.items():
            if g not in S and cs and cs<=S: S.add(g); ch=True
    return S
def recty(ex,rec):
    """the type object of a class of the program"""
    t=prog_ty(); t.s=rec; t.k='rec'; r=ex.P.recs[rec]; t.tmpl=r.get('tmpl'); t.args=[]; return t
def prog_ty():
    import prog; return prog.Ty()
def recobj(ex,rec,ref): return Rec(ref,recty(ex,rec))
