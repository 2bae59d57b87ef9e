"""P08: method and field ID lookup"""
from common import *
import p16
FILES=core_files()
MET='jnivm::Method'; FLD='jnivm::Field'
def inst(ex,q,*t):
    fs=[f for f in ex.P.find(q) if f.d.get('body') and tuple(int(x) for x in f.targs())==t]
    if len(fs)!=1: raise Unsupported('%s%r: %d candidates'%(q,t,len(fs)))
    return fs[0]
class K:
    """kind of member: rec, vector of the class, key field of the signature, static-ness, native-ness (methods)"""
    def __init__(s,meth,static,native=0):
        s.meth=meth; s.st=static; s.nat=native; s.rec=MET if meth else FLD; s.vec='methods' if meth else 'fields'; s.sig='signature' if meth else 'type'; s.q='jnivm::GetMethodID' if meth else 'jnivm::GetFieldID'
        s.L=func('lookup_%s_%d_%d'%(s.vec,static,native),I,Str,Str,I)
    def members(s,ex,c,store=None): return get(ex,CLS,s.vec,c) if store is None else oldF(ex,store,CLS,s.vec,c)
    def match(s,ex,m,nm,sg,store=None):
        g=(lambda f: get(ex,s.rec,f,m)) if store is None else (lambda f: oldF(ex,store,s.rec,f,m))
        st=g('_static'); st=st if s.st else Not(st); out=[st,g('name')==nm,g(s.sig)==sg]
        if s.meth: na=g('native'); na=na!=0 if na.sort()==I else Not(na==0) if na.sort()!=B else na; out.append(na if s.nat else Not(na))
        return And(*out)
    def unfold(s,ex,c,nm,sg,store=None):
        """definition of the lookup at class c over the current state: first own match, else the first base class (in order) whose lookup succeeds"""
        tag=str(c); v=s.members(ex,c,store); so=v.sort(); n=so.len(v); p=Const('first_%s'%tag,I); q=Const('qm',I); at=lambda i: Select(so.arr(v),i)
        t=get(ex,CLS,'baseclasses',c); bv=p16.bases(ex,t); bs=bv.sort(); bn=bs.len(bv); b=Const('firstbase_%s'%tag,I); bat=lambda i: Select(bs.arr(bv),i)
        hit=lambda i: And(bat(i)!=0,s.L(bat(i),nm,sg)!=0)
        ex.assume(And(p>=0,p<=n,Implies(p<n,s.match(ex,at(p),nm,sg,store)),ForAll([q],Implies(And(q>=0,q<p),Not(s.match(ex,at(q),nm,sg,store))),patterns=[at(q)])))
        ex.assume(And(b>=0,b<=bn,Implies(b<bn,hit(b)),ForAll([q],Implies(And(q>=0,q<b),Not(hit(q))),patterns=[bat(q)])))
        base=If(And(t!=0,b<bn),s.L(bat(b),nm,sg),IntVal(0))
        return If(p<n,at(p),base),base,p,b
def wf_members(ex,k,c,store=None):
    v=k.members(ex,c); so=v.sort(); q=Const('qw',I); e=Select(so.arr(v),q)
    ex.assume(so.len(v)>=0); ex.assume(ForAll([q],Implies(And(q>=0,q<so.len(v)),And(e>0,e<=Int('alloc!0'),func('isa_'+k.rec,I,B)(e))),patterns=[e]))
    ex.trust('every entry of a member table is a live member object (entries are only ever added by make_shared)')
class Rec_:
    """the recursive lookup GetMethodID / GetFieldID<static,true,...>(base,name,sig): L(base), nothing changes"""
    def __init__(s,k): s.k=k
    def use(s,ex,fn):
        f=ex.P.fns.get(fn['id'])
        return f is not None and any(fr.fn is not None and fr.fn.sqn==s.k.q for fr in ex.frames) and not (getattr(ex,'initcall',None))
    def apply(s,ex,n,fn,this,args):
        k=s.k; f=ex.P.fns[fn['id']]; t=[int(x) for x in f.targs()]; ex.used_contracts.add('%s%r'%(k.q,t)); a=[x.load(ex) if isinstance(x,LV) else x for x in args]
        ex.oblige(BoolVal(t[0]==k.st and t[1]==1 and (not k.meth or t[2]==k.nat)),'precondition','the base classes are searched with the same kind of lookup, without creating members')
        nm,sg=ex.lk
        ex.oblige(And(a[1]!=0,func('isa_'+CLS,I,B)(a[1])),'precondition','base lookup on a class')
        ex.oblige(And(Not(CSs.is_null(a[2])),ex.cstr(a[2])==nm),'precondition','same name'); ex.oblige(And(Not(CSs.is_null(a[3])),ex.cstr(a[3])==sg),'precondition','same signature')
        for x in ex.exact_ids if hasattr(ex,'exact_ids') else (): pass
        held=ex.ghost('held',z3.ArraySort(I,I)) if False else None
        r=k.L(a[1],nm,sg); ex.assume(r>=0); return r
def held0(ex): return ex.ghost('held',z3.ArraySort(I,I))
class DeclareC:
    """Declare(env,signature): only adds classes to the class tables (P17 proves which names; the effect on the tables is that of InternalFindClass)"""
    def use(s,ex,fn): return True
    def apply(s,ex,n,fn,this,args):
        ex.used_contracts.add('jnivm::Declare')
        na=ex.fresh(I,'alloc'); ex.assume(na>=ex.alloc); ex.alloc=na
        for rec,f in FindClassContract.TABLES:
            ty=fieldty(ex,rec,f); kk=fkey(ex,rec,f); h=ex.hmap(kk,ex.sort(ty))
            if rec=='jnivm::VM': ex.store[('H',kk)]=Store(h,ex.W.V,ex.fresh(ex.sort(ty),'tbl')); ex.touched(kk,ex.W.V)
            else: ex.store[('H',kk)]=ex.fresh(h.sort(),'tbl'); ex.touched(kk,'*')
        ex.trust('Declare is used by its contract: it only calls InternalFindClass (P17), so only the class tables change'); return None
def setup(ex,k,null):
    world(ex); p16.hier(ex); nm=Const('name',Str); sg=Const('sig',Str); ex.lk=(nm,sg); ex.assume(And(slen(nm)>=0,slen(sg)>=0,slen(nm)<2**31,slen(sg)<2**31,nonul(nm),nonul(sg))); ex.trust('strings are shorter than 2^31 bytes')
    for s in(nm,sg): ex.cstr(CSs.mk(s,IntVal(0)))
    h,r0=handle_to(ex,'cls',CLS,nonnull=not null); c=Const('c_',I); ex.assume(c==r0)
    if null: ex.assume(c==0); return h,c,nm,sg
    wf_members(ex,k,c); return h,c,nm,sg
def scan_members(ex,k,c,nm,sg):
    v=k.members(ex,c); so=v.sort(); t=get(ex,CLS,'baseclasses',c); bv=p16.bases(ex,t); bs=bv.sort(); at=lambda i: Select(so.arr(v),i); bat=lambda i: Select(bs.arr(bv),i)
    s0=ex.old()
    ex.scan={'own member does not match':(lambda st,q: Not(k.match(ex,at(q),nm,sg,s0)),so.len(v)),'base lookup misses':(lambda st,q: Not(And(bat(q)!=0,k.L(bat(q),nm,sg)!=0)),bs.len(bv))}
def notinit(ex,k,nm):
    if k.meth and not k.st: ex.assume(nm!=ex.lit(b'<init>'))
def lookup(k,targs,create):
    def body(ex):
        h,c,nm,sg=setup(ex,k,False); notinit(ex,k,nm); s0=ex.old(); D,base,p,b=k.unfold(ex,c,nm,sg); scan_members(ex,k,c,nm,sg); h0=held0(ex); f=inst(ex,k.q,*targs); args=[ex.W.env,h,CSs.mk(nm,IntVal(0)),CSs.mk(sg,IntVal(0))]
        r=noexc(ex,lambda: ex.invoke(f,None,args)); ex.reach(); q=Const('q',I)
        if not create:
            ex.post(r==D,'the first own match, otherwise the first match of the base classes in order, otherwise null'); unchanged_except(ex,s0,{}); held_balanced(ex,s0); return
        ex.post(Implies(D!=0,r==D),'an existing member is found: own first, then the base classes in order'); fresh=r>Int('alloc!0'); ex.post(Implies(D==0,fresh),'a miss creates a new member'); held_balanced(ex,s0)
        a=k.members(ex,c,s0); bb=k.members(ex,c); so=a.sort(); n=so.len(a)
        ex.post(Implies(D!=0,bb==a),'a hit adds nothing'); ex.post(Implies(D==0,And(so.len(bb)==n+1,Select(so.arr(bb),n)==r)),'a miss adds exactly the returned member'); ex.post(Implies(And(q>=0,q<n),Select(so.arr(bb),q)==Select(so.arr(a),q)),'earlier members stay')
        g=lambda f: get(ex,k.rec,f,r); st=g('_static')
        ex.post(Implies(D==0,And(g('name')==nm,g(k.sig)==sg,st if k.st else Not(st))),'the new member has exactly the requested name, signature and static-ness')
        if k.meth: ex.post(Implies(D==0,And(g('native')==0,g('nativehandle')==0)),'the new method is not hooked')
        else: ex.post(Implies(D==0,And(g('getnativehandle')==0,g('setnativehandle')==0)),'the new field is not hooked')
        unchanged_except(ex,s0,dict(TREE,**{CLS+'.'+k.vec:[c]}))
        # the same lookup again
        ex.assume(ForAll([q],Implies(And(q>=0,q<n),Not(k.match(ex,Select(so.arr(bb),q),nm,sg))),patterns=[Select(so.arr(bb),q)])) if False else None
        s1=ex.old(); scan_members(ex,k,c,nm,sg); r2=noexc(ex,lambda: ex.invoke(f,None,args)); ex.post(r2==r,'repeating the lookup yields the same ID'); b2=k.members(ex,c); ex.post(b2==bb,'and adds nothing')
    return body
def nullclass(k,targs,create):
    def body(ex):
        h,c,nm,sg=setup(ex,k,True); notinit(ex,k,nm); s0=ex.old(); r=noexc(ex,lambda: ex.invoke(inst(ex,k.q,*targs),None,[ex.W.env,h,CSs.mk(nm,IntVal(0)),CSs.mk(sg,IntVal(0))])); ex.reach()
        if not create: ex.post(r==0,'null class: null'); unchanged_except(ex,s0,{})
        else: ex.post(r>Int('alloc!0'),'null class: an unattached new member'); unchanged_except(ex,s0,dict(TREE,**{LF:[ex.W.E]})); pushed(ex,s0,[r])
    return body
class InitCall:
    """the static lookup of <init> reached from a constructor lookup"""
    def use(s,ex,fn): return any(fr.fn is not None and fr.fn.sqn=='jnivm::GetMethodID' for fr in ex.frames)
    def apply(s,ex,n,fn,this,args):
        f=ex.P.fns[fn['id']]; t=tuple(int(x) for x in f.targs()); ex.used_contracts.add('jnivm::GetMethodID%r'%(t,)); a=[x.load(ex) if isinstance(x,LV) else x for x in args]
        ex.inits.append(1); X=ex.cstr(a[3]); nm,sg,c,want=ex.ini; q=Const('qc',I); z=slen(X)
        ex.oblige(BoolVal(t[0]==1 and t[1:3]==want[1:3]),'post','a constructor lookup is a static lookup'); ex.oblige(a[1]==ex.inith,'post','in the same class'); ex.oblige(ex.cstr(a[2])==nm,'post','under the name <init>')
        k=Const('close',I); np=get(ex,CLS,'nativeprefix',c); L=slen(np)
        ex.oblige(z==k+L+2,'post','signature: parameters, L, class name, ;'); ex.oblige(Implies(And(q>=0,q<k),sat(X,q)==sat(sg,q)),'post','the parameter list is the given one')
        ex.oblige(sat(X,k)==ord('L'),'post','the return type is a class'); ex.oblige(Implies(And(q>=0,q<L),sat(X,k+1+q)==sat(np,q)),'post','the return type is the class itself'); ex.oblige(sat(X,k+L+1)==ord(';'),'post','terminated by ;')
        h=held0(ex); ex.oblige(Select(h,q)==Select(ex.h0,q),'post','no lock is held during the nested lookup')
        r=ex.fresh(I,'id'); ex.assume(r>=0); ex.initr=r; return r
def init(targs):
    def body(ex):
        k=K(True,0); h,c,nm,sg=setup(ex,k,False); ex.assume(nm==ex.lit(b'<init>')); ex.lk=None; q=Const('qp',I); kk=Const('close',I); n=slen(sg)
        # position behind the first closing parenthesis
        ex.assume(And(kk>=0,kk<=n,Implies(kk>0,sat(sg,kk-1)==ord(')')),ForAll([q],Implies(And(q>=0,q<(kk-1)),sat(sg,q)!=ord(')')),patterns=[sat(sg,q)]),Implies(kk==0,ForAll([q],Implies(And(q>=0,q<n),sat(sg,q)!=ord(')')),patterns=[sat(sg,q)]))))
        ex.inits=[]; ex.ini=(nm,sg,c,targs); ex.inith=h; s0=ex.old(); ex.h0=held0(ex)
        r=noexc(ex,lambda: ex.invoke(inst(ex,k.q,*targs),None,[ex.W.env,h,CSs.mk(nm,IntVal(0)),CSs.mk(sg,IntVal(0))])); ex.reach()
        ex.post(BoolVal(len(ex.inits)==1),'one static lookup'); ex.post(r==ex.initr,'its result is returned'); unchanged_except(ex,s0,{}); held_balanced(ex,s0)
    return body
def elem_fact(ex,et,el): return el>0 if el.sort()==I else None
def c(k,init=False,rec=True):
    g=cfg_fc(stdfunction=p16.call_bases,loop_templates=[scans()],elem_fact=elem_fact); g['contracts'].update(TJ); g['contracts']['jnivm::Declare']=DeclareC()
    g['contracts'][k.q]=InitCall() if init else Rec_(k); return g
SLOTS=[('GetMethodID',True,0),('GetStaticMethodID',True,1),('GetFieldID',False,0),('GetStaticFieldID',False,1)]
def slot(nm,meth,st,rn):
    def body(ex):
        f=ex.P.table(bool(rn)).get(nm); q='jnivm::GetMethodID' if meth else 'jnivm::GetFieldID'
        if f is None or f.sqn!=q: raise Unsupported('table entry %s is %s'%(nm,f and f.qn))
        t=[int(x) for x in f.targs()]; ex.reach()
        ex.post(BoolVal(t[0]==st),'entry %s looks up %s members'%(nm,'static' if st else 'instance')); ex.post(BoolVal(t[1]==rn),'return-null table iff return-null lookup')
        if meth: ex.post(BoolVal(t[2]==0),'entry %s does not return natives'%nm)
    return Goal('table entry %s (%s)'%(nm,'return-null' if rn else 'default'),body,cfg=cfg())
def goals(P):
    G=unpack_for(P,[CLS])+[slot(nm,m,st,rn) for nm,m,st in SLOTS for rn in(0,1)]
    def have(q):
        out=[]
        for f in P.find(q):
            if f.d.get('body'): out.append(tuple(int(x) for x in f.targs()))
        return sorted(out)
    for t in have('jnivm::GetMethodID'):
        k=K(True,t[0],t[2]); nm='GetMethodID<%s>'%','.join('%d'%x for x in t)
        G.append(Goal(nm,lookup(k,t,not t[1]),cfg=c(k))); G.append(Goal(nm+' of a null class',nullclass(k,t,not t[1]),cfg=c(k)))
        if not t[0]: G.append(Goal(nm+' <init>',init(t),cfg=c(k,init=True)))
    for t in have('jnivm::GetFieldID'):
        k=K(False,t[0]); G.append(Goal('GetFieldID<%s>'%','.join('%d'%x for x in t),lookup(k,t,not t[1]),cfg=c(k)))
    return G
