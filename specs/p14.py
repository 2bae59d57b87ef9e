"""P14: native method registration"""
from common import *
FILES=core_files()
MET='jnivm::Method'; NM='JNINativeMethod'
N=func('entry_name',I,Str); S=func('entry_sig',I,Str); FP=func('entry_fn',I,I)
INT=func('in_table',I,B)          # method objects in the class's table at entry
LAST=func('last_entry',I,I)       # last entry with the name and signature (nm,sg) among the first k, -1: none
LASTN=func('last_entry_name',I,I) # last entry with the name nk among the first k, -1: none
nm,sg,nk=Const('nm',Str),Const('sg',Str),Const('nk',Str)
q,m,p=Const('q',I),Const('m',I),Const('p',I)
def mem0(ex):
    """the caller's array of entries"""
    ty=slotfn(ex,'RegisterNatives').params()[2][2].to
    so=ex.sort(ty); k=Const('k',I); args=[]
    for f in ex.P.recs[NM]['fields']:
        v={'name':CSs.mk(N(k),IntVal(0)),'signature':CSs.mk(S(k),IntVal(0))}.get(f['n'])
        if v is None: v=FP(k); v=v2p(v) if ex.sort(f['t'])==Ptr else v
        args.append(v)
    b=Const('entries',I); ex.assume(And(b>0,b<=ex.alloc)); cnt=Const('count',I); ex.assume(And(cnt>=0,cnt<2**31)); ex.assume(Select(ex.blksize(),b)>=cnt); mk=ex.memkey(ty)
    a=ex.mem(mk,so); ex.store[('M',mk)]=Store(a,b,z3.Lambda([k],so.mks(*args)))
    for f in(N,S): ex.assume(ForAll([q],And(nonul(f(q)),slen(f(q))>=0,slen(f(q))<2**31),patterns=[f(q)]))
    ex.assume(ForAll([q],FP(q)>0,patterns=[FP(q)])); ex.trust('RegisterNatives: precondition of JNI: the array has the given number of entries, each with name, signature and function pointer')
    return b,cnt
def isnat(ex,x,store=None):
    g=(lambda f: get(ex,MET,f,x)) if store is None else (lambda f: oldF(ex,store,MET,f,x))
    return And(Not(g('_static')),g('native')!=0)
def match(ex,x,store=None):
    g=(lambda f: get(ex,MET,f,x)) if store is None else (lambda f: oldF(ex,store,MET,f,x))
    return And(Not(g('_static')),g('native')!=0,g('name')==nm,g('signature')==sg)
def table(ex,c,store=None):
    v=get(ex,CLS,'methods',c) if store is None else oldF(ex,store,CLS,'methods',c); so=v.sort(); return so.len(v),(lambda i: Select(so.arr(v),i))
def setup(ex):
    world(ex); h,r0=handle_to(ex,'cls',CLS); c=Const('c_',I); ex.assume(c==r0); n,at=table(ex,c); ex.assume(n>=0)
    ex.assume(ForAll([q],Implies(And(q>=0,q<n),And(at(q)>0,at(q)<=Int('alloc!0'),INT(at(q)))),patterns=[at(q)])); ex.trust('every entry of a member table is a live member object (entries are only ever added by make_shared)')
    return h,c,n,at
# what holds after the first k entries
def facts(ex,c,s0,k):
    """name -> formula over the current store"""
    n0,a0=table(ex,c,s0); n,at=table(ex,c); L=LAST(k); nat=get(ex,CLS,'natives',c); nat0=oldF(ex,s0,CLS,'natives',c); so=nat.sort(); LN=LASTN(k); out={}
    NAT=lambda x: get(ex,MET,'native',x); old=lambda x: oldF(ex,s0,MET,'native',x); a=Int('alloc!0')
    out['table grows']=n>=n0
    out['earlier methods kept in place']=ForAll([q],Implies(And(q>=0,q<n0),at(q)==a0(q)),patterns=[at(q)])
    out['every entry is a method']=ForAll([q],Implies(And(q>=0,q<n),And(at(q)>0,Implies(q>=n0,at(q)>a))),patterns=[at(q)])
    out['new entries are callable']=ForAll([q],Implies(And(q>=n0,q<n),isnat(ex,at(q))),patterns=[at(q)])
    out['methods of other classes keep their function']=ForAll([m],Implies(And(m<=a,Not(INT(m))),NAT(m)==old(m)),patterns=[NAT(m)])
    for f in('name','signature','_static','nativehandle'):
        out['%s of every earlier method kept'%f]=ForAll([m],Implies(m<=a,get(ex,MET,f,m)==oldF(ex,s0,MET,f,m)),patterns=[get(ex,MET,f,m)])
    out['natives stay natives']=ForAll([m],Implies(m<=a,(NAT(m)!=0)==(old(m)!=0)),patterns=[NAT(m)])
    out['a lookup finds the entry given last']=Implies(L>=0,Exists([p],And(p>=0,p<n,match(ex,at(p)),NAT(at(p))==FP(L),ForAll([q],Implies(And(q>=0,q<p),Not(match(ex,at(q)))),patterns=[at(q)]))))
    out['no method under any other name and signature']=Implies(L<0,ForAll([q],Implies(And(q>=0,q<n),And(match(ex,at(q))==And(q<n0,match(ex,a0(q),s0)),Implies(match(ex,at(q)),NAT(at(q))==old(at(q))))),patterns=[at(q)]))
    out['natives map']=And(Select(so.dom(nat),nk)==Or(LN>=0,Select(so.dom(nat0),nk)),Implies(Select(so.dom(nat),nk),Select(so.val(nat),nk)==If(LN>=0,FP(LN),Select(so.val(nat0),nk))))
    return out
def defs(k):
    return [LAST(0)==-1,LASTN(0)==-1,LAST(k+1)==If(And(N(k)==nm,S(k)==sg),k,LAST(k)),LASTN(k+1)==If(N(k)==nk,k,LASTN(k)),LAST(k)<k,LASTN(k)<k,LAST(k)>=-1,LASTN(k)>=-1,Implies(k<=0,And(LAST(k)==-1,LASTN(k)==-1))]
def templates(ex,ent,info,n,index,d):
    out={}; R=ex.__dict__.get('reg')
    if R is None: return out
    c,s0=R
    seen=[]
    for k,g,e in d['ints']+d['ptrs']:
        for nm_,cnt in(('up',lambda st,g=g,e=e: z3.simplify(g(st)-e)),('down',lambda st,g=g,e=e: z3.simplify(e-g(st)))):
            for f in facts(ex,c,s0,IntVal(0)):
                def cand(st,f=f,cnt=cnt):
                    kk=cnt(st)
                    for x in defs(kk): st.assume(x)
                    if not z3.is_int_value(kk):
                        for x in defs(z3.simplify(kk-1)): st.assume(Implies(kk>0,x)) if False else None
                    return facts(st,c,s0,kk)[f]
                out['%s, %s counted %s'%(f,d['name'](k),nm_)]=cand
    return out
def register(ex):
    h,c,n0,a0=setup(ex); b,cnt=mem0(ex); s0=ex.old(); ex.reg=(c,s0); ex.assume(And(nonul(nm),nonul(sg)))
    for x in defs(IntVal(0)): ex.assume(x)
    r=noexc(ex,lambda: jni(ex,'RegisterNatives',h,Ptr.mkp(b,IntVal(0)),cnt)); ex.reach()
    for x in defs(cnt): ex.assume(x)
    ex.post(r==0,'JNI_OK')
    for f,x in facts(ex,c,s0,cnt).items(): ex.post(x,f)
    held_balanced(ex,s0); unchanged_except(ex,s0,{CLS+'.methods':[c],CLS+'.natives':[c],MET+'.native':'*'},objects=True)
def null(name):
    def body(ex):
        world(ex); b,cnt=mem0(ex); s0=ex.old(); args=[IntVal(0)]+([Ptr.mkp(b,IntVal(0)),cnt] if name[0]=='R' else [])
        r=noexc(ex,lambda: jni(ex,name,*args)); ex.reach(); ex.post(r==0,'JNI_OK'); unchanged_except(ex,s0,{}); held_balanced(ex,s0)
    return body
CNT=func('kept_before',I,I)  # number of methods without a native function among the first q of the table at entry
def un_templates(ex,ent,info,n,index,d):
    out={}; R=ex.__dict__.get('unreg')
    if R is None: return out
    c,s0,n0,a0,K=R
    for k,g,e in d['ints']+d['ptrs']:
        def J(st,g=g,e=e): i=g(st)-e; l,at=table(st,c); j=z3.simplify(n0-(l-i)); K(st,j); return i,j,l,at
        def x1(st,J=J): i,j,l,at=J(st); return And(i==CNT(j),j>=0,j<=n0,i>=0,i<=l)
        def x2(st,J=J): i,j,l,at=J(st); return ForAll([q],Implies(And(q>=0,q<j,keep(st,s0,a0(q))),And(at(CNT(q))==a0(q),CNT(q)<i,CNT(q)>=0)),patterns=[a0(q)])
        def x3(st,J=J): i,j,l,at=J(st); return ForAll([q],Implies(And(q>=i,q<l),at(q)==a0(q+(j-i))),patterns=[at(q)])
        nmk=d['name'](k); out['%s counts the kept methods'%nmk]=x1; out['kept methods moved up, %s'%nmk]=x2; out['rest not moved, %s'%nmk]=x3
    return out
def keep(ex,s0,x): return oldF(ex,s0,MET,'native',x)==0
def unregister(ex):
    h,c,n0,a0=setup(ex); s0=ex.old()
    def K(st,j): st.assume(CNT(j+1)==If(keep(st,s0,a0(j)),CNT(j)+1,CNT(j))); st.assume(CNT(0)==0); st.assume(Implies(j>=0,And(CNT(j)>=0,CNT(j)<=j)))
    K(ex,IntVal(0)); ex.unreg=(c,s0,n0,a0,K); r=noexc(ex,lambda: jni(ex,'UnregisterNatives',h)); ex.reach(); n,at=table(ex,c); K(ex,n0)
    ex.post(r==0,'JNI_OK'); ex.post(n==CNT(n0),'exactly the native methods are gone'); ex.post(ForAll([q],Implies(And(q>=0,q<n0,keep(ex,s0,a0(q))),at(CNT(q))==a0(q))),'every other method is kept, in order')
    nat=get(ex,CLS,'natives',c); ex.post(Not(Select(nat.sort().dom(nat),nk)),'no function stays registered'); held_balanced(ex,s0); unchanged_except(ex,s0,{CLS+'.methods':[c],CLS+'.natives':[c]},objects=True)
def ef(ex,et,el): return el>0 if el.sort()==I else None
def goals(P):
    k=lambda *t: cfg(loop_templates=list(t),elem_fact=ef,value_structs=(NM,))
    return unpack_for(P,[CLS])+[Goal('RegisterNatives',register,cfg=k(templates)),Goal('RegisterNatives of a null class',null('RegisterNatives'),cfg=k()),Goal('UnregisterNatives of a null class',null('UnregisterNatives'),cfg=k()),Goal('UnregisterNatives',unregister,cfg=k(un_templates))]
