"""Signatures: the type at a position, parameters, and the contracts of the parsers"""
from common import *
T=func('typeend',Str,I,I,I)      # end of the type that starts at p, never past e
FS=func('semicolon',Str,I,I,I)   # first ';' in [p,e), e if there is none
EL=func('elemtype',Str,I,I)    # first position at or after p that is no '['
PAR=func('param',Str,I,I)        # start of the k-th parameter
def ch(ex,s,p): return ex.str_at(s,p)
def fs_def(ex,s,p,e):
    q=Const('qs',I); f=FS(s,p,e)
    return And(f>=p,f<=e,Implies(f<e,sat(s,f)==ord(';')),ForAll([q],Implies(And(q>=p,q<f),sat(s,q)!=ord(';')),patterns=[sat(s,q)]))
def unfold(ex,s,p,e):
    """definition of the end of a type at p"""
    c=ch(ex,s,p); f=FS(s,p,e)
    return And(T(s,p,e)==If(p>=e,e,If(Or(c==ord('['),c==ord('(')),T(s,p+1,e),If(c==ord('L'),If(f>=e,e,f+1),p+1))),Implies(p<e,And(T(s,p,e)>p,T(s,p,e)<=e)))
class SkipContract:
    """SkipJNIType(cur,end): the end of the type at cur, in (cur,end] (end itself when nothing is left)"""
    def __init__(s,rec=False): s.rec=rec
    def use(s,ex,fn): return not s.rec or any(f.fn is not None and f.fn.sqn=='jnivm::SkipJNIType' for f in ex.frames)
    def apply(self,ex,n,fn,this,args):
        ex.used_contracts.add('jnivm::SkipJNIType'); a,b=[x.load(ex) if isinstance(x,LV) else x for x in args]
        s=z3.simplify(CSs.s(a)); p=z3.simplify(CSs.o(a)); e=z3.simplify(CSs.o(b))
        ex.oblige(And(Not(CSs.is_null(a)),Not(CSs.is_null(b)),CSs.s(b)==s,p>=0,p<=e,e<=slen(s)),'precondition','SkipJNIType is called with a range inside one string')
        r=T(s,p,e); ex.assume(Implies(p<e,And(r>p,r<=e))); ex.assume(Implies(p>=e,r==e)); return CSs.mk(s,r)
def cursor_advances(ex,key,n,head):
    """termination: every iteration moves some string cursor forward"""
    ok=[]
    for k,v in ex.store.items():
        if k in head and z3.is_expr(v) and v.sort()==CSs and z3.is_expr(head[k]) and not v.eq(head[k]): ok.append(And(CSs.s(v)==CSs.s(head[k]),CSs.o(v)>CSs.o(head[k]),CSs.o(v)<=slen(CSs.s(v))))
    for k,v in ex.store.items():
        if k in head and isinstance(v,Iter) and not v.idx.eq(head[k].idx): ok.append(v.idx>head[k].idx)
    ex.oblige(Or(*ok) if ok else BoolVal(False),'variant','each iteration advances the cursor (termination)',assume=False)
def fact(ex,f):
    i=f.get_id(); d=ex.__dict__.setdefault('_facts',{})
    if d.get(i) is ex.pc: return
    d[i]=ex.pc; ex.keep.append(f); ex.assume(f)
KINDS=dict(Z=('z','jboolean','int'),B=('b','jbyte','int'),S=('s','jshort','int'),C=('c','jchar','int'),I=('i','jint','int'),J=('j','jlong','long'),F=('f','jfloat','double'),D=('d','jdouble','double'))
def jvfield(ex,f):
    for x in ex.P.recs['jvalue']['fields']:
        if x['n']==f: return x['t']
    raise Unsupported('jvalue.%s'%f)
def promoted(ex,letter,vid,i):
    """the value of the i-th variadic argument, converted from its promoted type"""
    f,_,pt=KINDS[letter]; so={'int':I,'long':I,'double':F64}[pt]; v=func('va_'+pt,VL,I,so)(vid,i); ty=jvfield(ex,f)
    if letter in'ZBSC': return ex.wrap(v,ty)
    if letter=='F': return f32_of(v)
    return v
def matches(ex,s,vid,jv,q):
    """jv is the q-th argument, of the type the q-th parameter of signature s has"""
    c=sat(s,PAR(s,q)); out=[]
    for l,(f,_,pt) in KINDS.items(): out.append(Implies(c==ord(l),ex.jvsel(f,ex.sort(jvfield(ex,f)))(jv)==promoted(ex,l,vid,q)))
    lt=jvfield(ex,'l'); out.append(Implies(Or(c==ord('L'),c==ord('[')),ex.jvsel('l',ex.sort(lt))(jv)==func('va_ptr',VL,I,ex.sort(lt))(vid,q)))
    return And(*out)
def par_step(ex,s,n):
    """definition of the n-th parameter's successor"""
    p=PAR(s,n); e=slen(s)
    for x in(unfold(ex,s,p,e),fs_def(ex,s,p,e)): fact(ex,x)
    fact(ex,PAR(s,n+1)==T(s,p,e)); fact(ex,And(PAR(s,0)==1)); fact(ex,sat(s,slen(s))==0)
    fact(ex,Implies(And(p+1<e),And(T(s,p+1,e)>p+1,T(s,p+1,e)<=e))); fact(ex,Implies(p+1>=e,T(s,p+1,e)==e))
    # well-formed signatures: see wellformed()
    w=ex.__dict__.get('wfsig')
    if w is not None and str(w[0])==str(s):
        N=w[1]; c=ch(ex,s,p)
        fact(ex,Implies(And(n>=0,n<N),And(Or(*[c==ord(l) for l in 'ZBCSIJFDL[']),p>=1,p<e,p<PAR(s,N)))); fact(ex,Implies(n==N,And(c==ord(')'),p>=1,p<e))); fact(ex,N>=0)
        # an element class name of an array is terminated
        fact(ex,Implies(And(n>=0,n<N,c==ord('L')),FS(s,p,e)<e))
        m=EL(s,p); qe=Int('qe')
        fact(ex,Implies(And(n>=0,n<N,c==ord('[')),And(m>p,m<e,sat(s,m)!=ord('['),ForAll([qe],Implies(And(qe>=p,qe<m),sat(s,qe)==ord('[')),patterns=[sat(s,qe)]),Implies(sat(s,m)==ord('L'),FS(s,m,e)<e))))
        fact(ex,fs_def(ex,s,m,e))
def arr_fact(ex,s,cur,e): fact(ex,unfold(ex,s,cur,e)); fact(ex,fs_def(ex,s,cur,e))
def sig_templates(ex,ent,info,n,index,d):
    out={}; sig=ex.__dict__.get('sig')
    if sig is None: return out
    s,vid=sig[0],sig[1]; e=slen(s)
    vals=[k for k in info.mod if k[0]=='L' and z3.is_expr(ent.get(k)) and ent[k].sort().kind()==z3.Z3_DATATYPE_SORT and getattr(ent[k].sort(),'elem',None)==JV]
    vas=[k for k in info.mod if k[0]=='VA']
    for k,g,e0 in d['css']:
        def same(st,k=k,g=g,e0=e0):
            o=z3.simplify(g(st)); arr_fact(st,s,o,e); return And(T(s,o,e)==T(s,e0,e),o>=e0,o<=e)
        out['type at %s is the type at entry'%d['name'](k)]=same
        def unterm(st,k=k,g=g,e0=e0):
            o=z3.simplify(g(st)); arr_fact(st,s,o,e); return ForAll([Int('qa')],Implies(And(Int('qa')>=e0,Int('qa')<o),sat(s,Int('qa'))==ord('[')))
        out['only [ passed by %s'%d['name'](k)]=unterm
        out['string of %s'%d['name'](k)]=lambda st,k=k: And(Not(CSs.is_null(st.store[k])),CSs.s(st.store[k])==s)
        for v in vals:
            def at(st,k=k,g=g,v=v):
                L=st.store[v]; m=z3.simplify(L.sort().len(L)); par_step(st,s,m); return And(g(st)==PAR(s,m),g(st)<=e,m>=0)
            out['%s is at the next parameter'%d['name'](k)]=at
            if ex.__dict__.get('wfsig'):
                N=ex.wfsig[1]; out['%s not past the parameters'%d['name'](k)]=lambda st,k=k,g=g,v=v: (lambda L: L.sort().len(L)<=N)(st.store[v])
    for v in vals:
        for a in vas: out['one variadic argument per parameter (%s)'%d['name'](v)]=lambda st,v=v,a=a: st.store[a]==ent[a]+(lambda L: L.sort().len(L))(st.store[v])
        q=Const('qv',I)
        out['values so far (%s)'%d['name'](v)]=lambda st,v=v: ForAll([q],Implies(And(q>=0,q<st.store[v].sort().len(st.store[v])),matches(st,s,vid,Select(st.store[v].sort().arr(st.store[v]),q),q)),patterns=[PAR(s,q)])
    return out
def one(ex,q,pred=lambda f: True):
    fs=[f for f in ex.P.find(q) if f.d.get('body') and pred(f)]
    if len(fs)!=1: raise Unsupported('%s: %d candidates'%(q,len(fs)))
    return fs[0]
def any_sig(ex,nm='S'):
    s=Const(nm,Str); ex.assume(And(nonul(s),slen(s)>=0,slen(s)<2**31)); return s
def valist(ex,c0=IntVal(0)):
    vid=Const('va_args',VL); ck=('VA','spec'); ex.store[ck]=c0; return vid,ck,VaList(vid,ck)
