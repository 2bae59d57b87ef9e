"""Method calls: the hooked function as an external, logged call; overload resolution; contracts of the call forms and of defaultVal"""
from sigs import *
import p16
MET='jnivm::Method'; THR='jnivm::Throwable'; CE='jnivm::ENV.current_exception'
TYPES=['Object','Boolean','Byte','Char','Short','Int','Long','Float','Double','Void']
CT=dict(Object='_jobject *',Boolean='unsigned char',Byte='signed char',Char='unsigned short',Short='short',Int='int',Long='long',Float='float',Double='double',Void='void')
def norm(t):
    t=t.replace('jboolean','unsigned char').replace('jbyte','signed char').replace('jchar','unsigned short').replace('jshort','short').replace('jint','int').replace('jlong','long').replace('jfloat','float').replace('jdouble','double').replace('jobject','_jobject *') if t.startswith('j') else t
    return t.replace(' ','')
def inst_of(qn):
    """X<T,...>::f -> T"""
    a=qn.index('<'); d=0
    for i in range(a,len(qn)):
        if qn[i]=='<': d+=1
        if qn[i]=='>': d-=1
        if d==0 or (d==1 and qn[i]==','): return qn[a+1:i].strip()
def pending(ex): return get(ex,'jnivm::ENV','current_exception',ex.W.E)
class HookC:
    """a hooked implementation: an arbitrary function; it may throw anything and may change the pending exception"""
    def __init__(s,kind): s.kind=kind
    def use(s,ex,fn): return True
    def apply(s,ex,n,fn,this,args):
        a=[x.load(ex) if isinstance(x,LV) else x for x in args[:3]]; f=ex.P.fns.get(fn['id']); T=inst_of(fn['qn']); h=this.ref if isinstance(this,Rec) else this.load(ex)
        ex.oblige(h!=0,'null-deref','the hooked implementation exists'); ev=dict(kind=s.kind,T=T,handle=h,env=a[0],recv=a[1],param=a[2])
        if isinstance(a[2],PtrTo): ev['jv']=a[2].lv.load(ex)
        ex.__dict__.setdefault('calls',[]).append(ev)
        ex.trust('hooked functions are external: arbitrary result or exception; of the state observed here they change only the pending exception and what JNI calls of their own change')
        ev['before']=pending(ex); x=ex.fresh(I,'pending'); ex.assume(x>=0); F(ex,'jnivm::ENV','current_exception',ex.W.E).put(ex,x); ev['after']=x
        if ex.branch(ex.fresh(B,'hook_throws')):
            r=ex.fresh(I,'exception'); ex.assume(r>0); ev['exc']=r; raise CppThrow(None,None,r)
        rt=f.ret()
        if rt.k=='void': ev['ret']=None; return IntVal(0)
        r=ex.fresh(ex.sort(rt),'result'); ex.on_read(r,rt); ev['ret']=r; return r
HOOKS={'jnivm::impl::MethodHandleBase::'+k: HookC(k) for k in('InstanceInvoke','NonVirtualInstanceInvoke','StaticInvoke','InstanceGet','StaticGet','InstanceSet','StaticSet','NonVirtualInstanceGet')}
class DefaultC:
    """defaultVal<T>(env,signature): the default value of the type (P18); logged"""
    def use(s,ex,fn): return True
    def apply(s,ex,n,fn,this,args):
        f=ex.P.fns[fn['id']]; T=f.targs()[0] if f.targs() else str(f.ret().s); a=[x.load(ex) if isinstance(x,LV) else x for x in args]; rt=f.ret(); ex.used_contracts.add('jnivm::defaultVal<%s>'%T)
        g=a[1]; 
        ev=dict(T=T,env=a[0],sig=ex.cstr(g) if g.sort()==CSs else g); ex.__dict__.setdefault('defaults',[]).append(ev)
        if rt.k=='void': ev['ret']=None; return IntVal(0)
        if norm(T)!=norm('_jobject *'): r=ex.zero(ex.sort(rt))
        else:
            r=ex.fresh(I,'default'); ex.assume(r>=0); na=ex.fresh(I,'alloc'); ex.assume(na>=ex.alloc); ex.alloc=na
            for key in(LF,): ty=fieldty(ex,'jnivm::ENV','localframe'); hm=ex.hmap(key,ex.sort(ty)); ex.store[('H',key)]=Store(hm,ex.W.E,ex.fresh(ex.sort(ty),'frames')); ex.touched(key,ex.W.E)
            ex.trust('defaultVal<jobject> is used by its contract (P18): it returns a default value, changes only local frames, class tables and new objects')
        ev['ret']=r; return r
def match(ex,m,nm,sg): return And(Not(get(ex,MET,'_static',m)),get(ex,MET,'name',m)==nm,get(ex,MET,'signature',m)==sg,get(ex,MET,'nativehandle',m)!=0)
LV_=func('overload',I,Str,Str,I)
def unfold_ov(ex,c,nm,sg):
    """nearest hooked overload: the first in the class's own table, else of the base classes in order; 0: none"""
    v=get(ex,CLS,'methods',c); so=v.sort(); n=so.len(v); p=Const('first',I); q=Const('qm',I); at=lambda i: Select(so.arr(v),i)
    t=get(ex,CLS,'baseclasses',c); bv=p16.bases(ex,t); bs=bv.sort(); bn=bs.len(bv); b=Const('firstbase',I); bat=lambda i: Select(bs.arr(bv),i); hit=lambda i: And(bat(i)!=0,LV_(bat(i),nm,sg)!=0)
    ex.assume(n>=0); w=Const('qw',I); e=at(w); ex.assume(ForAll([w],Implies(And(w>=0,w<n),And(e>0,e<=Int('alloc!0'))),patterns=[e])); ex.trust('every entry of a member table is a live member object (entries are only ever added by make_shared)')
    ex.assume(And(p>=0,p<=n,Implies(p<n,match(ex,at(p),nm,sg)),ForAll([q],Implies(And(q>=0,q<p),Not(match(ex,at(q),nm,sg))),patterns=[at(q)])))
    ex.assume(And(b>=0,b<=bn,Implies(b<bn,hit(b)),ForAll([q],Implies(And(q>=0,q<b),Not(hit(q))),patterns=[bat(q)])))
    ex.scan={'own overload does not match':(lambda st,q: Not(match(st,at(q),nm,sg)),n),'base class has no overload':(lambda st,q: Not(hit(q)),bn)}
    x=Const('c_any',I); z=LV_(x,nm,sg); ex.assume(ForAll([x],Implies(z!=0,And(z>0,z<=Int('alloc!0'),match(ex,z,nm,sg))),patterns=[z]))
    return If(p<n,at(p),If(And(t!=0,b<bn),LV_(bat(b),nm,sg),IntVal(0)))
class RecOv:
    """recursive overload search in a base class"""
    def use(s,ex,fn):
        f=ex.P.fns.get(fn['id']); return f is not None and any(fr.fn is not None and fr.fn.id==f.id for fr in ex.frames)
    def apply(s,ex,n,fn,this,args):
        ex.used_contracts.add(strip_targs(fn['qn'])); nm,sg,mid=ex.ov; a=[x.load(ex) if isinstance(x,LV) else x for x in args]; f=ex.P.fns[fn['id']]
        ps=[str(p[2].s) for p in f.params()]; c=[x for x,p in zip(a,ps) if 'Class' in p]; m=[x for x,p in zip(a,ps) if 'Method' in p]
        if len(c)!=1 or len(m)!=1: raise Unsupported('overload search %s'%ps)
        ex.oblige(And(c[0]!=0,m[0]==mid),'precondition','the base class is searched for an overload of the same method'); r=LV_(c[0],nm,sg); ex.assume(r>=0); return r
def strip_targs(q):
    import interp; return interp.strip_targs(q)
def ovfns(P):
    """recursive functions over classes in method.cpp (overload search)"""
    out=[]
    for f in P.fns.values():
        if f.d is not None and f.d.get('body') and f.d.get('ptypes') is not None and any('Class' in str(p[2].s) for p in f.params()) and any('Method' in str(p[2].s) for p in f.params()) and 'Method' in str(f.ret().s) and f.sqn not in out: out.append(f.sqn)
    return out
def ccfg(P,**kw):
    k=cfg_fc(stdfunction=p16.call_bases,loop_templates=[scans()],elem_fact=lambda ex,et,el: el>0 if el.sort()==I else None,rec_depth=2,exact_isa=(THR,),**kw); k['contracts'].update(TJ); k['contracts'].update(HOOKS); k['contracts']['jnivm::defaultVal']=DefaultC()
    for q in ovfns(P): k['contracts'][q]=RecOv()
    return k
def reset(ex):
    for k in('calls','defaults','forms','marshal'): ex.__dict__[k]=[]
def method(ex,hooked):
    """an arbitrary method ID"""
    mid=Const('mid',I); ex.assume(And(mid>0,mid<=ex.alloc,ex.isa(MET,mid))); nh=get(ex,MET,'nativehandle',mid); ex.assume(nh>0 if hooked else nh==0); nm,sg=get(ex,MET,'name',mid),get(ex,MET,'signature',mid); return mid,nm,sg
def args_block(ex):
    b,o=Const('args',I),Const('argo',I); ex.assume(And(b>=0,b<=ex.alloc,o>=0)); return Ptr.mkp(b,o)
def one_call(ex,kind,T,handle,recv,param):
    cs=ex.__dict__.get('calls',[]); ex.post(BoolVal(len(cs)==1),'the function is called exactly once')
    if len(cs)!=1: raise PathEnd()
    c=cs[0]; ex.post(BoolVal(c['kind']==kind and norm(c['T'])==norm(CT[T])),'%s with the return type of the call'%kind); ex.post(c['handle']==handle,'the right implementation'); ex.post(c['env']==ex.W.E,"the caller's environment"); ex.post(c['recv']==recv,'the given receiver'); ex.post(c['param']==param,'the given arguments'); return c
def outcome(ex,c,T,r,sig):
    """result and pending exception after the hooked function returned or threw"""
    ds=ex.__dict__.get('defaults',[])
    if 'exc' in c:
        p=pending(ex); ex.post(p>Int('alloc!0'),'a new object is pending'); ex.post(ex.isa(THR,p),'a throwable is pending'); ex.post(get(ex,THR,'except',p)==c['exc'],'the pending throwable carries the exception thrown')
        one_default(ex,T,r,sig); return
    ex.post(BoolVal(not ds),'no default value is made')
    if c['ret'] is not None: ex.post(r==c['ret'],"the function's result is returned unchanged")
    ex.post(pending(ex)==c['after'],'the pending exception is left alone')
def one_default(ex,T,r,sig):
    ds=ex.__dict__.get('defaults',[]); ex.post(BoolVal(len(ds)==1),'one default value is made')
    if len(ds)!=1: raise PathEnd()
    d=ds[0]; ex.post(BoolVal(norm(d['T'])==norm(CT[T])),'the default value of the return type'); ex.post(And(d['env']==ex.W.E),'in the calling environment'); ex.post(d['sig']==sig,'the default value of the declared signature')
    if d['ret'] is not None: ex.post(r==d['ret'],'the default value is returned')
def frame(ex,s0,extra=()): unchanged_except(ex,s0,dict(TREE,**{LF:[ex.W.E],CLZ:'*',CE:[ex.W.E],**{k:'*' for k in extra}}),objects=True); held_balanced(ex,s0)
