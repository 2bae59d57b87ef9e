"""P09: class identity.  InternalFindClass for every name and every earlier history of lookups (representation invariant of the class
and namespace tables, with ghost maps for the namespaces by path and for the position of every entry in its parent)."""
from common import *
FILES=core_files()+['src/fake-jni/jvm.cpp','src/fake-jni/fake-jni.cpp','src/baron/jvm.cpp']
VMC='jnivm::VM'; KC=VMC+'.classes'; KN=NSP+'.namespaces'; KNC=NSP+'.classes'; KCC=CLS+'.classes'
# ---- string theory: paths ("a/b/" of a namespace), class names; every axiom below is a fact about these definitions on finite byte strings:
#  nscat(p,n)=p+n+"/"   topc(p,n)=p+n   nest(c,n)=c+"$"+n
#  npar(q)/nlast(q): split of a path before its last segment; nsl(s): index after the last '/'; ctop(s): no '$' after the last '/';
#  cpar(s)/cnm(s): owner (path, or class before the last '$') and simple name of the class name s
nscat=func('nscat',Str,Str,Str); npar=func('npar',Str,Str); nlast=func('nlast',Str,Str)
topc=func('topc',Str,Str,Str); nest=func('nest',Str,Str,Str); ctop=func('ctop',Str,B); cpar=func('cpar',Str,Str); cnm=func('cnm',Str,Str); nsl=func('nsl',Str,I)
SL,DO,BR=ord('/'),ord('$'),ord('[')
def sub0(s,k): return sub(s,IntVal(0),k)
def none_in(s,a,b,c): q=Const('qc',I); return ForAll([q],Implies(And(q>=a,q<b),sat(s,q)!=c),patterns=[sat(s,q)])
def br(s): return And(slen(s)>0,sat(s,0)==BR)
def lemmas(ex,s,o,n):
    """instances of the string lemmas for the piece s[o,o+n) and the prefixes s[0,o), s[0,o+n)"""
    p=z3.simplify(o+n); seg=sub(s,o,n); L=slen(s); a=sub0(s,o); b1=sub0(s,p+1); c=sub0(s,p); d=sub0(s,z3.simplify(o-1))
    rng=And(o>=0,o<=p,p<=L)
    for x,k in((a,o),(b1,p+1),(c,p),(d,o-1)):
        if x.get_id() in ex.seen_reads: continue
        ex.seen_reads.add(x.get_id()); ex.keep.append(x); k0=Const('k',I); k=z3.simplify(k)
        ok=And(k>=0,k<=L)
        ex.assume(Implies(ok,slen(x)==k)); ex.assume(Implies(ok,ForAll([k0],Implies(And(k0>=0,k0<k),sat(x,k0)==sat(s,k0)),patterns=[sat(x,k0)])))
        ex.assume(Implies(k==L,x==s)); ex.assume(Implies(k==0,x==bytestr[0]())); ex.assume(Implies(And(ok,nsl(s)<=k),nsl(x)==nsl(s)))
    def imp(p,c): ex.assume(c if ex.must(p,True) else Implies(p,c))
    imp(And(rng,p<L,sat(s,p)==SL,Or(o==0,sat(s,o-1)==SL),none_in(s,o,p,SL)),And(b1==nscat(a,seg),npar(b1)==a,nlast(b1)==seg,b1!=bytestr[0]()))
    imp(And(rng,Or(o==0,sat(s,o-1)==SL),none_in(s,o,p,SL),none_in(s,o,p,DO)),And(c==topc(a,seg),ctop(c),cpar(c)==a,cnm(c)==seg))
    imp(And(rng,o>0,sat(s,o-1)==DO,none_in(s,o,p,SL),none_in(s,o,p,DO)),And(c==nest(d,seg),Not(ctop(c)),cpar(c)==d,cnm(c)==seg))
def string_axioms(ex):
    s=Const('xs',Str); p=Const('xp',I); j=Const('xj',I)
    ex.assume(ForAll([s,p,j],Implies(And(j>=0,j<=p,p<=slen(s)),sub0(sub0(s,p),j)==sub0(s,j)),patterns=[sub0(sub0(s,p),j)]))
    ex.assume(ForAll([s],And(nsl(s)>=0,nsl(s)<=slen(s)),patterns=[nsl(s)])); ex.assume(slen(bytestr[0]())==0)
    ex.trust('P09 string lemmas: splitting a name at a "/" or "$" position is unique (instances of facts about finite byte strings, checked for short strings by the driver)')
# ---- ghost state
GH=dict(nsd=ArraySort(Str,B),nsm=ArraySort(Str,I),path=ArraySort(I,Str),nidx=ArraySort(I,I),cidx=ArraySort(I,I))
def g(ex,nm): return ex.store[('H','$'+nm)]
def ghosts(ex):
    for nm,so in GH.items(): ex.store[('H','$'+nm)]=Const('gh_'+nm,so)
def tabs(ex):
    return {k:ex.hmap(k,ex.sort(fieldty(ex,k.rsplit('.',1)[0],k.rsplit('.',1)[1]))) for k in(KN,KNC,KCC,KC,NSP+'.name',CLS+'.name',CLS+'.nativeprefix')}
def inv(ex):
    """the representation invariant over the current state, by name"""
    T=tabs(ex); key=[*T.values(),*[g(ex,x) for x in GH],ex.alloc]; memo=getattr(ex.W,'memo',None)
    if memo and len(memo[0])==len(key) and all(a.eq(b) for a,b in zip(memo[0],key)): return memo[1]
    out=inv_(ex,T); ex.W.memo=(key,out); return out
def inv_(ex,T):
    V=ex.W.V; al=ex.alloc; root=nsref(ex); em=bytestr[0]()
    nsd,nsm,path,nidx,cidx=[g(ex,x) for x in('nsd','nsm','path','nidx','cidx')]
    D=lambda q: Select(nsd,q); M=lambda q: Select(nsm,q); P=lambda n: Select(path,n)
    nn=lambda n: Select(T[NSP+'.name'],n); cn=lambda c: Select(T[CLS+'.name'],c); np=lambda c: Select(T[CLS+'.nativeprefix'],c)
    mv=Select(T[KC],V); so=mv.sort(); dom=lambda s: Select(so.dom(mv),s); tab=lambda s: Select(so.val(mv),s)
    def el(k,n,i): v=Select(T[k],n); return v.sort().len(v),Select(v.sort().arr(v),i)
    q=Const('iq',Str); n=Const('in',I); i=Const('ii',I); s=Const('is',Str); k=Const('ik',I)
    isac=lambda e: And(func('isa_'+CLS,I,B)(e),Not(func('isa_'+WEAK,I,B)(e)),Not(func('isa_'+GLOB,I,B)(e)))
    VN=lambda n: And(D(P(n)),M(P(n))==n,n!=0); VC=lambda c: And(dom(np(c)),tab(np(c))==c,Not(br(np(c))))
    out={}
    out['the root namespace is registered']=And(D(em),M(em)==root,P(root)==em)
    out['registered namespaces know their path']=ForAll([q],Implies(D(q),And(M(q)!=0,M(q)<=al,P(M(q))==q)),patterns=[M(q)])
    l,e=el(KN,n,i)
    out['every sub-namespace is registered under its path']=ForAll([n,i],Implies(And(VN(n),i>=0,i<l),And(e>0,e<=al,P(e)==nscat(P(n),nn(e)),D(P(e)),M(P(e))==e)),patterns=[e])
    e=M(q); p=npar(q); l,x=el(KN,M(p),Select(nidx,e))
    out['every registered namespace is listed in its parent']=ForAll([q],Implies(And(D(q),q!=em),And(D(p),Select(nidx,e)>=0,Select(nidx,e)<l,x==e,nn(e)==nlast(q))),patterns=[p])
    out['every package prefix of a registered class is registered']=ForAll([s,k],Implies(And(dom(s),Not(br(s)),k>=0,k<slen(s),sat(s,k)==SL),D(sub0(s,k+1))),patterns=[z3.MultiPattern(dom(s),sat(s,k))])
    out['every enclosing class of a registered class is registered']=ForAll([s,k],Implies(And(dom(s),Not(br(s)),k>=nsl(s),k>=0,k<slen(s),sat(s,k)==DO),dom(sub0(s,k))),patterns=[z3.MultiPattern(dom(s),sat(s,k))])
    out['the table maps a name to a class of that full name']=ForAll([s],Implies(dom(s),And(tab(s)>0,tab(s)<=al,isac(tab(s)),np(tab(s))==s)),patterns=[tab(s)])
    l,c=el(KNC,n,i); f=topc(P(n),cn(c))
    out['every class of a namespace is registered under its full name']=ForAll([n,i],Implies(And(VN(n),i>=0,i<l),And(c>0,c<=al,np(c)==f,dom(f),tab(f)==c,ctop(f),cpar(f)==P(n),cnm(f)==cn(c),Not(br(f)))),patterns=[c])
    l,c=el(KCC,n,i); f=nest(np(n),cn(c))
    out['every nested class is registered under its full name']=ForAll([n,i],Implies(And(VC(n),i>=0,i<l),And(c>0,c<=al,np(c)==f,dom(f),tab(f)==c,Not(ctop(f)),cpar(f)==np(n),cnm(f)==cn(c),Not(br(f)))),patterns=[c])
    c=tab(s); l,x=el(KNC,M(cpar(s)),Select(cidx,c)); l2,x2=el(KCC,tab(cpar(s)),Select(cidx,c))
    out['every registered top-level class is listed in its namespace']=ForAll([s],Implies(And(dom(s),Not(br(s)),ctop(s)),And(D(cpar(s)),Select(cidx,c)>=0,Select(cidx,c)<l,x==c,cn(c)==cnm(s))),patterns=[cpar(s)])
    out['every registered nested class is listed in its class']=ForAll([s],Implies(And(dom(s),Not(br(s)),Not(ctop(s))),And(dom(cpar(s)),Not(br(cpar(s))),Select(cidx,c)>=0,Select(cidx,c)<l2,x2==c,cn(c)==cnm(s))),patterns=[cpar(s)])
    return out
def nslemma(ex):
    "the string pointers at hand: one behind the last '/' is at nsl"
    for k,v in list(ex.store.items()):
        if k[0]=='L' and z3.is_expr(v) and v.sort()==CSs and z3.simplify(CSs.s(v)).eq(ex.W.name):
            s=ex.W.name; o=z3.simplify(CSs.o(v)); L=slen(s); p=And(o>=0,o<=L,Or(o==0,sat(s,o-1)==SL),none_in(s,o,L,SL))
            if ex.must(p,True): ex.assume(nsl(s)==o)
def commit(ex,what='edge'):
    if what=='pre': return nslemma(ex)
    """ghost update: a container that grew since the last commit has its last element registered at its index / path"""
    T=tabs(ex)
    if what!='head':
        refs=ex.W.seen
        for k in(KN,KNC,KCC):
            for r in list(dict.fromkeys(x for t in ex.touch for x in t.get(k,[]) if not isinstance(x,str))):
                v=z3.simplify(Select(T[k],r)); o=z3.simplify(Select(ex.W.snap[k],r))
                so=v.sort()
                if v.eq(o) or not ex.must(so.len(v)>=1,True): continue
                v=ex.named_const(v); e=z3.simplify(Select(so.arr(v),so.len(v)-1)); x='nidx' if k==KN else 'cidx'
                ex.store[('H','$'+x)]=Store(g(ex,x),e,so.len(v)-1)
                if k==KN:
                    q=ex.fresh(Str,'q'); ex.assume(q==nscat(Select(g(ex,'path'),r),Select(T[NSP+'.name'],e)))
                    ex.store[('H','$path')]=Store(g(ex,'path'),e,q)
                    ex.store[('H','$nsd')]=Store(g(ex,'nsd'),q,BoolVal(True)); ex.store[('H','$nsm')]=Store(g(ex,'nsm'),q,e)
    ex.W.snap=T
def templates(ex,ent,info,n,index,d):
    W=getattr(ex,'W',None); out={}
    if W is None or not hasattr(W,'name'): return out
    for nm in inv(ex): out['inv: '+nm]=lambda st,nm=nm: inv(st)[nm]
    s=W.name; entT={k:ent.get(('H',k),ex.init_heap.get(('H',k))) for k in(KN,KNC,KCC,KC)}; k=Const('tk',Str)
    def table(st): mv=Select(tabs(st)[KC],W.V); so=mv.sort(); return (lambda x: Select(so.dom(mv),x)),(lambda x: Select(so.val(mv),x))
    def tab0(x): mv=Select(W.T0[KC],W.V); return Select(mv.sort().dom(mv),x),Select(mv.sort().val(mv),x)
    def same(st): T=tabs(st); return And(*[T[x]==W.T0[x] for x in(KN,KNC,KCC,KC)],*[g(st,x)==W.G0[x] for x in GH])
    out['nothing changes when the name is registered']=lambda st: Implies(tab0(s)[0],same(st))
    out['nothing changes in return-null mode']=lambda st: Implies(W.rz,same(st))
    out['table entries kept']=lambda st: ForAll([k],Implies(tab0(k)[0],And(table(st)[0](k),table(st)[1](k)==tab0(k)[1])),patterns=[table(st)[1](k),table(st)[0](k)])
    out['new table entries are new classes']=lambda st: ForAll([k],Implies(And(table(st)[0](k),Not(tab0(k)[0])),table(st)[1](k)>Int('alloc!0')),patterns=[table(st)[1](k),table(st)[0](k)])
    def empty(x):
        m=lambda f: Select(ex.hmap(CLS+'.'+f,ex.sort(fieldty(ex,CLS,f))),x)
        ks=Const('ek',Str); me,fi,na=m('methods'),m('fields'),m('natives'); return And(me.sort().len(me)==0,fi.sort().len(fi)==0,ForAll([ks],Not(Select(na.sort().dom(na),ks))))
    out['new classes are empty']=lambda st: ForAll([k],Implies(And(table(st)[0](k),Not(tab0(k)[0])),empty(table(st)[1](k))),patterns=[table(st)[1](k),table(st)[0](k)])
    for x in(CLS+'.name',CLS+'.nativeprefix',NSP+'.name',CLS+'.methods',CLS+'.fields',CLS+'.natives'):
        q=Const('tq',I); hm=lambda st,x=x: st.hmap(x,st.sort(fieldty(st,*x.rsplit('.',1))))
        out['%s of existing objects kept'%x]=lambda st,x=x,q=q,hm=hm: ForAll([q],Implies(q<=Int('alloc!0'),Select(hm(st),q)==Select(st.init_heap[('H',x)],q)),patterns=[Select(hm(st),q)])
    refs=[(kk,v) for kk,v in d['others'] if v.sort()==I]+[(kk,e) for kk,gg,e in d['ints'] if not isinstance(ent[kk],Iter)]
    j=Const('tj',I)
    for kk,gg,e in d['css']:
        v=d['name'](kk)
        out['%s at a segment start'%v]=lambda st,gg=gg: Or(gg(st)==0,sat(s,gg(st)-1)==SL)
        out['packages up to %s registered'%v]=lambda st,gg=gg: ForAll([j],Implies(And(j>=0,j<gg(st),sat(s,j)==SL),Select(g(st,'nsd'),sub0(s,j+1))),patterns=[sat(s,j)])
        out['enclosing classes up to %s registered'%v]=lambda st,gg=gg: ForAll([j],Implies(And(j>=nsl(s),j<gg(st),sat(s,j)==DO),table(st)[0](sub0(s,j))),patterns=[sat(s,j)])
        for rk,rv in refs:
            r=d['name'](rk)
            out['%s is the namespace at %s'%(r,v)]=lambda st,gg=gg,rk=rk: And(st.store[rk]!=0,Select(g(st,'nsd'),sub0(s,gg(st))),Select(g(st,'nsm'),sub0(s,gg(st)))==st.store[rk])
            out['%s is the class before %s'%(r,v)]=lambda st,gg=gg,rk=rk,e=e: Or(And(st.store[rk]==0,gg(st)==e),And(st.store[rk]>0,gg(st)>e,sat(s,gg(st)-1)==DO,table(st)[0](sub0(s,gg(st)-1)),table(st)[1](sub0(s,gg(st)-1))==st.store[rk],Not(br(sub0(s,gg(st)-1)))))
    return out
def fc(ex):
    fs=[f for f in ex.P.find('jnivm::InternalFindClass') if f.d.get('body') and 'ENV' in str(f.params()[0][2]) and 'JNIEnv' not in str(f.params()[0][2])]
    if len(fs)!=1: raise Unsupported('InternalFindClass(ENV*,...) not found')
    return fs[0]
def pre(ex,array):
    world(ex); nsref(ex); W=ex.W; W.seen=set()
    for c in(CLS,WEAK,GLOB): ex.isa(c,IntVal(0))
    s=Const('name',Str); ex.assume(And(nonul(s),slen(s)>=0,slen(s)<2**31)); W.rz=Const('rz',B)
    ex.assume(br(s) if array else Not(br(s)))
    string_axioms(ex); lemmas(ex,s,IntVal(0),IntVal(0)); ghosts(ex); W.T0=tabs(ex); W.G0={x:g(ex,x) for x in GH}; W.snap=W.T0; W.name=s
    for f in inv(ex).values(): ex.assume(f)
    return s
def run(ex,s):
    ex.touch.append({})
    try: r=noexc(ex,lambda: ex.invoke(fc(ex),None,[ex.W.E,CSs.mk(s,IntVal(0)),ex.W.rz,Const('trace',B)]))
    except PathEnd: raise
    commit(ex); return r
def table(ex,T=None): mv=Select((T or tabs(ex))[KC],ex.W.V); so=mv.sort(); return (lambda x: Select(so.dom(mv),x)),(lambda x: Select(so.val(mv),x))
def posts(array):
    def body(ex):
        s=pre(ex,array); s0=ex.old(); W=ex.W; r=run(ex,s); ex.reach()
        d0,t0=table(ex,W.T0); d1,t1=table(ex); k=Const('pk',Str); T=tabs(ex)
        ex.post(Implies(d0(s),r==t0(s)),'a known name designates the class it designated before')
        ex.post(Implies(r==0,And(W.rz,Not(d0(s)))),'null only for an unknown name in return-null mode')
        ex.post(Implies(And(W.rz,Not(d0(s))),r==0),'an unknown name is null in return-null mode')
        ex.post(Implies(r!=0,And(r>0,d1(s),t1(s)==r)),'the class is registered in the class table under its name')
        ex.post(Implies(r!=0,Select(T[CLS+'.nativeprefix'],r)==s),'the full name of the class is exactly the name')
        ex.post(Implies(And(r!=0,Not(d0(s))),r>Int('alloc!0')),'an unknown name gets a new class')
        ex.post(Implies(And(r!=0,d0(k),k!=s),r!=t0(k)),'no other name designates the class')
        ex.post(Implies(d0(k),And(d1(k),t1(k)==t0(k))),'other table entries kept')
        if z3.is_expr(r) and not ex.is_null(r):
            for x in('methods','fields'): v=get(ex,CLS,x,r); ex.post(Implies(And(r!=0,Not(d0(s))),v.sort().len(v)==0),'a new class has no %s'%x)
            v=get(ex,CLS,'natives',r); ks=Const('ks',Str); ex.post(Implies(And(r!=0,Not(d0(s))),Not(Select(v.sort().dom(v),ks))),'a new class has no registered natives')
        for x in(KN,KNC,KCC,KC):
            ex.post(Implies(Or(W.rz,d0(s)),T[x]==W.T0[x]),'tables unchanged for a known name or in return-null mode')
    return body
def keeps(array):
    def body(ex):
        s=pre(ex,array); s0=ex.old(); W=ex.W; r=run(ex,s); ex.reach()
        for nm,f in inv(ex).items(): ex.post(f,'invariant kept: '+nm)
        T=tabs(ex); q=Const('pq',I)
        for x in(CLS+'.name',CLS+'.nativeprefix',NSP+'.name'): ex.post(Implies(q<=Int('alloc!0'),Select(T[x],q)==Select(W.T0[x],q)),'names of existing classes and namespaces kept')
        unchanged_except(ex,s0,TREE)
    return body
EF=lambda ex,et,el: el>0 if el.sort()==I else None
def keep(c):
    "candidates that matter here (the generic arithmetic relations between loop variables do not)"
    return not(c.endswith(' const') or '<=off ' in c or c.endswith('<=entry') or c.endswith(' unchanged') and not c.startswith('str(') or 'allocated objects unchanged' in c or c.endswith('>=0') or c.endswith('<=len') and not c.startswith('off('))
C=lambda: cfg(fresh_ctx=True,exact_isa=(CLS,WEAK,GLOB),cand_filter=keep,loop_templates=[templates],loop_hook=lambda ex,w: commit(ex,w),sub_hook=lemmas,havoc_all=(KN,KNC,KCC,KC,CLS+'.name',CLS+'.nativeprefix',NSP+'.name'),elem_fact=EF)
def g_fresh(ex):
    """the tables of a VM as its constructor leaves them satisfy the invariant"""
    from p13 import one
    f=one(ex,'jnivm::VM::VM',lambda f: len(f.params())==2); V=Const('V',I); ex.assume(And(V>0,V<=ex.alloc)); W=World(); ex.W=W; W.V=V
    noexc(ex,lambda: ex.ctor_body(V,f.rec(),f,[BoolVal(True),Const('ReturnNull',B)],top=True)); ex.reach()
    root=nsref(ex); ghosts(ex); em=bytestr[0]()
    ex.store[('H','$nsd')]=Store(z3.K(Str,BoolVal(False)),em,BoolVal(True)); ex.store[('H','$nsm')]=Store(g(ex,'nsm'),em,root); ex.store[('H','$path')]=Store(g(ex,'path'),root,em)
    T=tabs(ex); n=Const('fn',I)
    # no other class or namespace object belongs to this VM: its tables are empty, and the root namespace is the only registered one
    x=Const('fx',I); ex.assume(ForAll([x],Implies(x!=root,Select(g(ex,'path'),x)!=em),patterns=[Select(g(ex,'path'),x)]))
    for nm,f in inv(ex).items(): ex.post(f,'holds for a new VM: '+nm)
def g_writers(ex):
    FCN='jnivm::InternalFindClass'; ok=only_called_from(ex.P,[FCN]); w=mutators(ex.P,{(VMC,'classes'),(NSP,'namespaces'),(NSP,'classes'),(NSP,'name'),(CLS,'classes'),(CLS,'name'),(CLS,'nativeprefix')})
    ex.reach()
    ex.post(BoolVal(FCN in w or bool(set(w)&ok)),'InternalFindClass registers classes')
    for f,fs in sorted(w.items()):
        if f not in ok and not f.startswith(('jnivm::VM::VM','jnivm::Class::Class','jnivm::Class::operator=','jnivm::Namespace::Namespace','jnivm::Namespace::operator=')): ex.post(BoolVal(False),'only InternalFindClass changes the class tables and the names in them (%s changes %s)'%(f,', '.join(sorted(fs))))
def g_table(rn):
    def body(ex):
        world(ex,returnnull=rn); assume_tree(ex); V=ex.W.V; s=Const('name',Str); ex.assume(And(nonul(s),slen(s)>=0,slen(s)<2**31)); calls=[]
        ex.fc_hook=lambda x,E,t: calls.append((E,t)); ex.fc_ret=[]; s0=ex.old()
        r=noexc(ex,lambda: jni(ex,'FindClass',CSs.mk(s,IntVal(0)))); ex.reach()
        ex.post(BoolVal(len(calls)==1),'one lookup'); 
        if calls: ex.post(And(calls[0][0]==ex.W.E,calls[0][1]==s),'the lookup is for this name in this environment')
        if ex.fc_ret: ex.post(r==ex.fc_ret[0],'returns the class found'); pushed(ex,s0,[r])
        else: ex.post(r==0,'null when there is none'); ex.post(BoolVal(rn),'only in return-null mode')
        held_balanced(ex,s0); unchanged_except(ex,s0,{**TREE,LF:[ex.W.E],CLZ:'*'})
    return body
def goals(P):
    G=[]
    for a,nm in((True,'array name'),(False,'plain, packaged and nested name')):
        G.append(Goal('InternalFindClass of a%s: identity'%('n '+nm if a else ' '+nm),posts(a),cfg=C(),deadline=600,fns=['jnivm::InternalFindClass']))
        G.append(Goal('InternalFindClass of a%s: table invariants'%('n '+nm if a else ' '+nm),keeps(a),cfg=C(),deadline=600,fns=['jnivm::InternalFindClass']))
    G.append(Goal('a new VM satisfies the table invariants',g_fresh,cfg=cfg()))
    G.append(Goal('class tables have a single writer',g_writers))
    for rn in(False,True):
        c=cfg_fc(); c['contracts'].update(TJ); G.append(Goal('FindClass (%s table)'%('return-null' if rn else 'default'),g_table(rn),cfg=c))
    return G
