"""P21: hooking replaces an implementation in place and keeps its ID"""
from common import *
import os
FILES=core_files()+[os.path.join(os.path.dirname(os.path.abspath(__file__)),'inst','install.cpp')]
VM='jnivm::VM'; MET='jnivm::Method'; FLD='jnivm::Field'; STRC='jnivm::String'; HOLD='inst::Hold'
VALS=[('unsigned char','Z'),('signed char','B'),('unsigned short','C'),('short','S'),('int','I'),('long','J'),('float','F'),('double','D'),('std::shared_ptr<jnivm::Object>',OBJ),('std::shared_ptr<jnivm::String>',STRC)]
PL=lambda r: [OBJ,r,'J'] if r!='V' else ['I',OBJ]
class Member:
    """one member a hook call has to leave in the class: table, static-ness, signature parts, implementation slots and the leading arguments (not part of the signature)"""
    def __init__(s,meth,static,sig,slots,lead,when=None): s.rec=MET if meth else FLD; s.vec='methods' if meth else 'fields'; s.key='signature' if meth else 'type'; s.st=static; s.sig=sig; s.slots=slots; s.lead=lead; s.when=when
def M(static,ps,r,lead=(),when=None): return Member(True,static,['(']+ps+[')',r],dict(nativehandle=['StaticInvoke'] if static else ['InstanceInvoke','NonVirtualInstanceInvoke']),lead,when)
def A(static,v,kinds,lead=(),when=None):
    k='Static' if static else 'Instance'; d={}
    if 'g' in kinds: d['getnativehandle']=[k+'Get']
    if 's' in kinds: d['setnativehandle']=[k+'Set']
    return Member(False,static,[v],d,lead,when)
CL='jnivm::Class'; E_=('ENV',); EC=('ENV','Class'); C_=('Class',)
def fun(r):
    ALLP=PL(r); return dict(plain=[M(1,ALLP,r)],env=[M(1,ALLP,r,E_)],jenv=[M(1,ALLP,r,('JNIEnv',))],env_class=[M(1,[CL]+ALLP,r,E_),M(1,ALLP,r,EC)],class0=[M(1,[CL]+ALLP,r),M(1,ALLP,r,C_)],none=[M(1,[],r)],
    memfn=[M(0,ALLP,r)],memfn_none=[M(0,[],r)],i_memfn=[M(0,ALLP,r)],i_plain=[M(0,ALLP,r)],i_env=[M(0,ALLP,r,E_)],i_env_object=[M(0,[OBJ]+ALLP,r,E_),M(0,ALLP,r,('ENV','Object'))],i_object=[M(0,[OBJ]+ALLP,r),M(0,ALLP,r,('Object',))],
    i_env_hold=[M(0,[HOLD]+ALLP,r,E_),M(0,ALLP,r,('ENV','Hold'),HOLD)],i_hold=[M(0,[HOLD]+ALLP,r),M(0,ALLP,r,('Hold',),HOLD)])
def getr(r): return dict(plain=[A(1,r,'g')],env=[A(1,r,'g',E_)],env_class=[A(1,r,'g',EC)],class0=[A(1,r,'g',C_)],i_plain=[A(0,r,'g')],i_env_object=[A(0,r,'g',('ENV','Object'))],i_object=[A(0,r,'g',('Object',))])
def setr(r): return dict(plain=[A(1,r,'s')],env=[A(1,r,'s',E_)],env_class=[A(1,r,'s',EC)],class0=[A(1,r,'s',C_)],i_plain=[A(0,r,'s')],i_env_object=[A(0,r,'s',('ENV','Object'))],i_object=[A(0,r,'s',('Object',))],i_memfn=[A(0,r,'s')])
def prop(r): return dict(variable=[A(1,r,'gs')],member=[A(0,r,'gs')],i_variable=[A(0,r,'gs')],i_member=[A(0,r,'gs')],ip_member=[A(0,r,'gs')])
def tc(ex,T,V):
    """the registration of a C++ class: (is registered, class)"""
    m=ex.tc0; so=m.sort(); k=Const('typeid_'+T,I); return Select(so.dom(m),k),Select(so.val(m),k)
def signature(ex,parts):
    r=ex.lit(b'')
    for p in reversed(parts):
        if len(p)==1: r=ex.mk_cat(ex.lit(p.encode()),r)
        else: r=ex.mk_cat(ex.lit(b'L'),ex.mk_cat(ex.np0[p],ex.mk_cat(ex.lit(b';'),r)))
    return r
def split(s):
    out=[];d=0;c=''
    for ch in s:
        if ch in'<(': d+=1
        if ch in'>)': d-=1
        if ch==',' and d==0: out.append(c.strip()); c=''
        else: c+=ch
    return out+[c.strip()]
def lead_of(q):
    """the leading arguments a hook wrapper class supplies itself"""
    i=q.find('Wrap<'); d=0
    if i<0: raise Unsupported('wrapper class '+q)
    for j in range(i+4,len(q)):
        if q[j] in'<(': d+=1
        if q[j] in'>)':
            d-=1
            if d==0: break
    return tuple({'_JNIEnv':'JNIEnv','JNIEnv_':'JNIEnv'}.get(n,n) for n in (x.replace('*','').strip().split('::')[-1] for x in split(q[i+5:j])[1:]))
def handle_of(ex,cls,ref):
    t=[x for x in ex.P.recs[cls]['fields'] if x['n']=='t']
    if len(t)!=1: raise Unsupported('layout of '+cls)
    for b in ex.P.bases_of(t[0]['t'].base):
        for x in ex.P.recs.get(b,{}).get('fields',()):
            if x['n']=='handle': return ex.fieldLV(subobj(ex,ex.subref(cls,'t',ref),t[0]['t'].base,b),b,'handle',0,x['t']).load(ex)
    raise Unsupported('layout of '+cls)
def subobj(ex,ref,d,b): return ref
def shape(P,T,name,cpp,members):
    fs=[f for f in P.fns.values() if f.sqn=='inst::%s::%s'%(T,name) and f.d.get('body') and split(f.d['qn'].split('<',1)[1].rsplit('>::',1)[0])[0]==cpp]
    def body(ex):
        if len(fs)!=1: raise Unsupported('instantiation %s<%s>::%s not found'%(T,cpp,name))
        world(ex); f=fs[0]; c=Const('cls',I); ex.assume(And(c>0,c<=ex.alloc,ex.isa(CLS,c))); nm=Const('id',Str); ex.assume(And(slen(nm)>=0,slen(nm)<2**31)); fp=Const('impl',ex.sort(f.params()[3][2])); ex.on_read(fp,f.params()[3][2])
        ex.tc0=get(ex,VM,'typecheck',ex.W.V); k=Const('kt',ex.tc0.sort().kk); e=Select(ex.tc0.sort().val(ex.tc0),k)
        ex.assume(ForAll([k],Implies(Select(ex.tc0.sort().dom(ex.tc0),k),And(e>0,e<=ex.alloc,func('isa_'+CLS,I,B)(e))),patterns=[e])); ex.trust('the C++ type table of a VM holds class objects (P13: filled at start and by registrations)')
        need=[p for m in members for p in m.sig if len(p)>1]; reg=And(*[tc(ex,p,ex.W.V)[0] for p in need]) if need else BoolVal(True)
        ex.np0={p:get(ex,CLS,'nativeprefix',tc(ex,p,ex.W.V)[1]) for p in need}
        for s in ex.np0.values(): ex.assume(And(slen(s)>=0,slen(s)<2**20))
        vecs={}
        for m in members:
            v=get(ex,CLS,m.vec,c); so=v.sort(); q=Const('q_'+m.vec,I); x=Select(so.arr(v),q); vecs[m.vec]=v
            ex.assume(And(so.len(v)>=0,so.len(v)<2**31)); ex.assume(ForAll([q],Implies(And(q>=0,q<so.len(v)),And(x>0,x<=ex.alloc,func('isa_'+m.rec,I,B)(x))),patterns=[x]))
        ex.trust('every entry of a member table is a live member object (entries are only ever added by make_shared)')
        s0=ex.old(); thrown=False; ex.scan={}
        for i,m in enumerate(members):
            def NM(st,q,m=m,sig=signature(ex,m.sig)):
                # over the state of the loop
                o=lambda fl,x: oldF(ex,st.store,m.rec,fl,x); v=oldF(ex,st.store,CLS,m.vec,c); x=Select(v.sort().arr(v),q); y=o('_static',x); return Not(And(y if m.st else Not(y),o('name',x)==nm,o(m.key,x)==sig))
            ex.scan['no match for member %d'%i]=(NM,None)
        try: ex.invoke(f,None,[recobj(ex,CLS,c),recobj(ex,'jnivm::ENV',ex.W.E),TmpLV(nm,f.params()[2][2]),fp])
        except CppThrow: thrown=True
        ex.reach()
        if thrown: ex.post(Not(reg),'throws only if a class of the signature is not registered'); unchanged_except(ex,s0,{},objects=True); return
        if need: ex.post(reg,'the classes of the signature are registered'); ex.assume(reg)
        # expected members, in order
        allow={}
        for vec in dict.fromkeys(m.vec for m in members):
            v0=vecs[vec]; so=v0.sort(); v1=get(ex,CLS,vec,c); n=so.len(v0); at=lambda i: Select(so.arr(v0),i); cnt=n; add=[]
            for i,m in enumerate(members):
                g=lambda fl,x,m=m: oldF(ex,s0,m.rec,fl,x); sig=signature(ex,m.sig)
                def match(x): s=g('_static',x); return And(s if m.st else Not(s),g('name',x)==nm,g(m.key,x)==sig)
                applies=BoolVal(True) if m.when is None else And(tc(ex,m.when,ex.W.V)[0],tc(ex,m.when,ex.W.V)[1]==c)
                if not ex.branch(applies): continue
                p=Const('first_%d'%i,I); q=Const('qf',I); ex.assume(And(p>=0,p<=n,Implies(p<n,match(at(p))),ForAll([q],Implies(And(q>=0,q<p),Not(match(at(q)))),patterns=[at(q)])))
                ex.post(Implies(p<n,Select(so.arr(v1),p)==at(p)),'the first matching member keeps its place')
                if decide(ex,p<n): x=z3.simplify(at(p)); new=False
                else:
                    x=z3.simplify(Select(so.arr(v1),cnt)); new=True; cnt=z3.simplify(cnt+1); add.append(x); ex.post(so.len(v1)>=cnt,'a member that is missing is appended (%s)'%''.join(m.sig))
                    ex.post(And(x>Int('alloc!0'),*[x!=y for y in add[:-1]]),'the appended member is a new one'); ex.post(get(ex,m.rec,'name',x)==nm,'with the given name'); ex.post(get(ex,m.rec,m.key,x)==sig,'with the derived signature'); st=get(ex,m.rec,'_static',x); ex.post(st if m.st else Not(st),'with the derived static-ness')
                    for fl in P.recs[m.rec]['fields']:
                        if fl['n'] in ('native','getnativehandle','setnativehandle','nativehandle') and fl['n'] not in m.slots: y=get(ex,m.rec,fl['n'],x); ex.post((y==0) if y.sort()==I else Ptr.blk(y)==0 if y.sort()==Ptr else Not(y),'%s of a new member is empty'%fl['n'])
                for sl,over in m.slots.items():
                    h=z3.simplify(get(ex,m.rec,sl,x)); cls=impl_class(ex,h); ex.post(BoolVal(cls is not None),'%s is an implementation made by this call'%sl)
                    if cls is None: continue
                    ex.post(BoolVal(all(any(fn.d.get('n',fn.sqn.rsplit('::',1)[-1])==o and fn.rec() is not None and fn.rec().base==cls for fn in P.fns.values()) for o in over)),'%s implements %s'%(sl,', '.join(over)))
                    ex.post(BoolVal(lead_of(cls)==tuple(m.lead)),'%s passes %s before the arguments of the signature'%(sl,m.lead or 'nothing')); ex.post(handle_of(ex,cls,h)==fp,'%s is the given function or variable'%sl)
                    allow.setdefault(fkey(ex,m.rec,sl),[]).append(x)
            ex.post(so.len(v1)==cnt,'no further member is added'); q=Const('qk',I); ex.post(Implies(And(q>=0,q<n),Select(so.arr(v1),q)==at(q)),'existing members keep their place and identity')
            allow[fkey(ex,CLS,vec)]=[c]
        unchanged_except(ex,s0,allow,objects=True); held_balanced(ex,s0)
    return body
def decide(ex,c):
    if ex.must(BoolVal(False)): raise PathEnd()
    return True if ex.must(c) else False if ex.must(Not(c)) else ex.branch(c)
def impl_class(ex,h):
    c=ex.exact.get(h.get_id())
    if c is not None: return c
    for r in ex.keep:
        if z3.is_expr(r) and r.get_id() in ex.exact and ex.must(h==r): return ex.exact[r.get_id()]
def goals(P):
    G=[]; C=cfg(opaque_cat=True,loop_templates=[scans()],elem_fact=lambda ex,et,el: el>0 if el.sort()==I else None)
    for T,tab,extra in(('Fun',fun,[('void','V')]),('Get',getr,[]),('Set',setr,[]),('Prop',prop,[])):
        for cpp,v in VALS+extra:
            for name,ms in tab(v).items(): G.append(Goal('%s %s of %s'%(T,name,v),shape(P,T,name,cpp,ms),cfg=C))
    return G
