"""P17: signature parsers"""
from sigs import *
FILES=core_files()
def g_skip(ex):
    s=Const('S',Str); p=Const('p',I); e=Const('e',I); ex.assume(And(slen(s)>=0,slen(s)<2**31,p>=0,p<=e,e<=slen(s))); ex.assume(unfold(ex,s,p,e)); ex.assume(fs_def(ex,s,p,e)); s0=ex.old()
    ex.assume(Implies(p>=e,T(s,p,e)==e)); ex.assume(Implies(p+1<e,And(T(s,p+1,e)>p+1,T(s,p+1,e)<=e))); ex.assume(Implies(p+1==e,T(s,p+1,e)==e))
    r=noexc(ex,lambda: ex.invoke(one(ex,'jnivm::SkipJNIType'),None,[CSs.mk(s,p),CSs.mk(s,e)])); ex.reach()
    ex.post(And(Not(CSs.is_null(r)),CSs.s(r)==s),'stays in the string'); ex.post(CSs.o(r)<=e,'never past the end'); ex.post(Implies(p<e,CSs.o(r)>p),'consumes something'); ex.post(CSs.o(r)==T(s,p,e),'consumes exactly one type'); unchanged(ex,s0)
def g_marshal_any(ex):
    """any signature: reads stay inside, terminates, malformed ones are rejected"""
    s=any_sig(ex); vid,ck,va=valist(ex); ex.sig=(s,vid); par_step(ex,s,IntVal(0)); s0=ex.old()
    try: r=ex.invoke(one(ex,'jnivm::JValuesfromValist'),None,[va,CSs.mk(s,IntVal(0))])
    except CppThrow as x:
        ex.reach(); ex.post(BoolVal(x.ty=='std::invalid_argument'),'the documented exception'); return
    ex.reach(); ex.post(ch(ex,s,IntVal(0))==ord('('),'a signature without opening parenthesis is rejected')
    ex.post(r.sort().len(r)>=0,'terminates')
def g_marshal_wf(ex):
    """well-formed signature: one value per parameter, in order"""
    s=any_sig(ex); N=Const('N',I); ex.wfsig=(s,N); c0=Const('c0',I); ex.assume(c0>=0); vid,ck,va=valist(ex,IntVal(0)); ex.sig=(s,vid); ex.assume(ch(ex,s,IntVal(0))==ord('(')); par_step(ex,s,IntVal(0)); par_step(ex,s,N)
    r=noexc(ex,lambda: ex.invoke(one(ex,'jnivm::JValuesfromValist'),None,[va,CSs.mk(s,IntVal(0))]),'a well-formed signature is accepted'); ex.reach(); q=Const('q',I)
    ex.post(r.sort().len(r)==N,'exactly one value per parameter'); ex.post(ex.store[ck]==N,'exactly one argument consumed per parameter')
    ex.post(Implies(And(q>=0,q<N),matches(ex,s,vid,Select(r.sort().arr(r),q),q)),'each value is the argument of its parameter, converted from its promoted type')
GOALS=[Goal('SkipJNIType',g_skip,cfg=dict(contracts={'jnivm::SkipJNIType':SkipContract(True)},rec_depth=2))]
SK={'jnivm::SkipJNIType':SkipContract()}
GOALS+=[Goal('JValuesfromValist (any signature)',g_marshal_any,cfg=dict(contracts=SK,loop_templates=[sig_templates],variant=cursor_advances)),
 Goal('JValuesfromValist (well-formed signature)',g_marshal_wf,cfg=dict(contracts=SK,loop_templates=[sig_templates],variant=cursor_advances))]
KD=func('declared_at',Str,I,I)   # position of the k-th class of the signature (its L); the length when there is none
def base(s,k): return If(k==0,IntVal(0),FS(s,KD(s,k-1),slen(s))+1)
def dcl_def(ex,s,k):
    b=z3.simplify(base(s,k)); K=KD(s,k); e=slen(s); q=Const('qd',I)
    fact(ex,Implies(And(b>=0,b<=e),And(K>=b,K<=e,Implies(K<e,sat(s,K)==ord('L')),ForAll([q],Implies(And(q>=b,q<K),sat(s,q)!=ord('L')),patterns=[sat(s,q)]))))
    fact(ex,Implies(And(K>=0,K<=e),fs_def(ex,s,K,e)))
DK=('G','declared')
def declare_templates(ex,ent,info,n,index,d):
    out={}; s=ex.dsig; e=slen(s)
    for k,g,e0 in d['css']:
        def inv(st,g=g):
            m=st.store[DK]; o=z3.simplify(g(st)); dcl_def(ex,s,m); b=base(s,m); q=Int('qn')
            return And(m>=0,b>=0,b<=o,o<=e,ForAll([q],Implies(And(q>=b,q<o),sat(s,q)!=ord('L')),patterns=[sat(s,q)]))
        out['every class before %s is declared'%d['name'](k)]=inv
        out['string of %s'%d['name'](k)]=lambda st,k=k: And(Not(CSs.is_null(st.store[k])),CSs.s(st.store[k])==s)
    return out
def g_declare(ex):
    """every complete class name of the signature is declared, in order, and nothing else; null terminated text is never left"""
    s=any_sig(ex); ex.dsig=s; ex.store[DK]=IntVal(0); e=slen(s); W=world(ex); E=W.E
    def hook(ex,E2,nm):
        m=ex.store[DK]; dcl_def(ex,s,m); K=KD(s,m); f=FS(s,K,e); q=Const('qh',I)
        ex.oblige(E2==E,'post','declared in the calling environment'); ex.oblige(And(K<e,f<e),'post','only complete class names are declared')
        ex.oblige(slen(nm)==f-K-1,'post','the declared name has the length of the text between L and ;')
        ex.oblige(Implies(And(q>=0,q<f-K-1),sat(nm,q)==sat(s,K+1+q)),'post','the declared name is the text between L and ;')
        ex.store[DK]=m+1
    ex.fc_hook=hook; s0=ex.old()
    noexc(ex,lambda: ex.invoke(one(ex,'jnivm::Declare'),None,[W.env,CSs.mk(s,IntVal(0))])); ex.reach(); m=ex.store[DK]; dcl_def(ex,s,m); K=KD(s,m)
    ex.post(Or(K>=e,FS(s,K,e)>=e),'every complete class name is declared')
GOALS+=[Goal('Declare',g_declare,cfg=(lambda c: c['contracts'].update(TJ) or c)(cfg_fc(loop_templates=[declare_templates],variant=cursor_advances)))]
