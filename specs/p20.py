"""P20: field access reaches exactly the hooked accessor, once, with the exact value"""
from calls import *
import p10,os
FILES=p10.FILES+[os.path.join(os.path.dirname(os.path.abspath(__file__)),'inst','fields.cpp')]
FLD='jnivm::Field'; MEMB=p10.MEMB; FT=[T for T in TYPES if T!='Void']
def setup(ex,static,acc,null=None):
    reset(ex); world(ex); p16.hier(ex); fid=Const('fid',I); ex.assume(And(fid>0,fid<=ex.alloc,ex.isa(FLD,fid))); hh=get(ex,FLD,acc,fid)
    if null=='receiver': h,rv=IntVal(0),IntVal(0)
    elif static: h,rc=handle_to(ex,'cls',CLS); rv=rc
    else: h=handle(ex,'obj'); rv=h
    return fid,hh,h,rv
def stat(ex,fid): x=get(ex,FLD,'_static',fid); return x if x.sort()==B else x!=0
def access(static,T,setter):
    acc='setnativehandle' if setter else 'getnativehandle'; name=('Set' if setter else 'Get')+('Static' if static else '')+T+'Field'
    def body(ex):
        fid,hh,h,rv=setup(ex,static,acc,'receiver' if not setter and ex.branch(Const('null_receiver',B)) else None); ex.assume(hh>0); ex.assume(h>0 if setter else BoolVal(True)); ex.assume(stat(ex,fid)==BoolVal(static)); p0=pending(ex); s0=ex.old(); v=[]
        if setter:
            f=slotfn(ex,name); pt=f.params()[3][2]; x=Const('value',ex.sort(pt)); ex.on_read(x,pt); v=[x]
        try: r=jni(ex,name,h,fid,*v); thrown=False
        except CppThrow: thrown=True
        ex.reach(); cs=ex.calls; ex.post(BoolVal(len(cs)==1),'the accessor is called exactly once')
        if len(cs)!=1: raise PathEnd()
        c=cs[0]; k=('Static' if static else 'Instance')+('Set' if setter else 'Get'); ex.post(BoolVal(c['kind']==k and norm(c['T'])==norm(CT[T])),'%s of the type of the field'%k); ex.post(c['handle']==hh,"this field's own accessor"); ex.post(c['env']==ex.W.E,"the caller's environment"); ex.post(c['recv']==rv,'the given receiver')
        ex.post(BoolVal(thrown==('exc' in c)),'an exception passes, nothing else is thrown')
        if setter:
            ex.post(BoolVal('jv' in c),'a value is passed')
            if 'jv' in c: ex.post(func('jv_'+MEMB[T],JV,x.sort())(c['jv'])==x,'exactly the value given')
        elif not thrown: ex.post(r==c['ret'],"exactly the getter's result")
        ex.post(pending(ex)==c['after'],'the pending exception is left to the accessor'); ex.post(BoolVal(not ex.defaults),'no default value is made')
        unchanged_except(ex,s0,{LF:[ex.W.E],CLZ:'*',CE:[ex.W.E]},objects=True); held_balanced(ex,s0)
    return body
def ignored(static,T):
    """Set without setter, without object or with a null ID"""
    name='Set'+('Static' if static else '')+T+'Field'
    def body(ex):
        why=0 if ex.branch(Const('no_setter',B)) else 1 if ex.branch(Const('no_object',B)) else 2
        fid,hh,h,rv=setup(ex,static,'setnativehandle','receiver' if why==1 else None)
        if why==0: ex.assume(hh==0)
        f=slotfn(ex,name); pt=f.params()[3][2]; x=Const('value',ex.sort(pt)); ex.on_read(x,pt); s0=ex.old(); noexc(ex,lambda: jni(ex,name,h,IntVal(0) if why==2 else fid,x)); ex.reach(); ex.post(BoolVal(not ex.calls),'nothing is called'); unchanged_except(ex,s0,{LF:[ex.W.E],CLZ:'*'},objects=True); held_balanced(ex,s0)
    return body
def aborts(ex):
    ex.reach(); ex.post(BoolVal(not ex.calls),'no accessor runs before the fatal error')
def mismatch(static,T,setter):
    acc='setnativehandle' if setter else 'getnativehandle'; name=('Set' if setter else 'Get')+('Static' if static else '')+T+'Field'
    def body(ex):
        fid,hh,h,rv=setup(ex,static,acc); ex.assume(hh>0); ex.assume(h>0 if setter else BoolVal(True)); ex.assume(stat(ex,fid)==BoolVal(not static)); v=[]
        if setter:
            f=slotfn(ex,name); pt=f.params()[3][2]; x=Const('value',ex.sort(pt)); ex.on_read(x,pt); v=[x]
        try: jni(ex,name,h,fid,*v)
        except CppThrow: pass
        ex.post(BoolVal(False),'a field ID of the wrong kind is a fatal error: control does not come back'); ex.post(BoolVal(not ex.calls),'and no accessor runs')
    return body
SH=dict(plain='',env='E',env_class='EC',env_object='EO',object='O',memfn='O')
SH['class']='C'
SHAPES=['sget_plain','sget_env','sget_env_class','sget_class','iget_env_object','iget_object','sset_plain','sset_env','sset_env_class','sset_class','iset_env_object','iset_object','iset_memfn']
DIRECT=['sget_variable','sset_variable','iget_member','iset_member']
def shape(P,name,T):
    """an accessor wrapper calls its function with exactly the value / returns exactly its result; or reads and writes exactly the variable or member"""
    fs=[f for f in P.fns.values() if f.sqn=='inst::Acc::'+name and f.d.get('body') and norm(f.d['qn'].split('<')[1].split(',')[0])==norm(CT[T])]
    def body(ex):
        reset(ex); ex.ext=[]; world(ex)
        if len(fs)!=1: raise Unsupported('instantiation %s<%s> not found'%(name,T))
        f=fs[0]; setter='set_' in name; fw=Const('wrapper',I); ex.assume(And(fw>0,fw<=ex.alloc))
        hold='inst::Acc<%s>::Hold'%f.d['qn'].split('<',1)[1].rsplit('>::',1)[0]; ty=hold if name in('iset_memfn','iget_member','iset_member') else OBJ
        if name[0]=='s': h=rc=Const('cls',I); ex.assume(And(rc>0,rc<=ex.alloc,ex.isa(CLS,rc))); recv=rc
        elif ty==OBJ: h=handle(ex,'obj'); recv=resolved(ex,h)
        else: h,recv=handle_to(ex,'obj',ty); ex.assume(recv>0)
        p=args_block(ex); ex.assume(Ptr.blk(p)>0); o=Ptr.off(p); ex.assume(And(Select(ex.blksize(),Ptr.blk(p))>=o+1,Select(ex.hmap('blk.live',B),Ptr.blk(p)))); jv=Select(Select(ex.mem('jvalue',JV),Ptr.blk(p)),o)
        ho=func('jv_l',JV,I)(jv); ex.assume(And(ho>=0,ho<=ex.alloc)); handle_inv(ex,ho); val=resolved(ex,ho) if T=='Object' else None; s0=ex.old()
        args=[recobj_of(ex,f,fw),ex.W.E,h]+([p] if setter else [])
        if name in DIRECT:
            hd=handle_of(ex,f,fw)
            if 'variable' in name: ex.assume(And(Ptr.blk(hd)>0,Ptr.blk(hd)<=ex.alloc,Ptr.off(hd)>=0,Ptr.off(hd)<Select(ex.blksize(),Ptr.blk(hd)),Select(ex.hmap('blk.live',B),Ptr.blk(hd)))); ex.trust('the variable behind a static field is alive while the field is used')
        try: r=ex.invoke(f,None,args); thrown=False
        except CppThrow: thrown=True
        ex.reach()
        if name in DIRECT: ex.post(BoolVal(not thrown and not ex.ext),'no function is called'); direct(ex,hd,T,setter,recv,jv,val,None if setter else r,s0); return
        ex.post(BoolVal(len(ex.ext)==1),'the function is called exactly once')
        if len(ex.ext)!=1: raise PathEnd()
        e=ex.ext[0]; a=e['args']; ex.post(BoolVal('(wrapper)' in str(e['fn'])),'the function this accessor was installed with'); sh=SH[name.split('_',1)[1]]; ex.post(BoolVal(len(a)==len(sh)+(1 if setter else 0)),'with the declared arguments')
        if len(a)!=len(sh)+(1 if setter else 0): raise PathEnd()
        for c,x in zip(sh,a): ex.post(x==(ex.W.E if c=='E' else recv),'the environment first' if c=='E' else 'the receiver')
        if setter: x=a[-1]; ex.post(x==(val if T=='Object' else func('jv_'+MEMB[T],JV,x.sort())(jv)),'exactly the value given')
        elif not thrown: ex.post(r==e['ret'],"exactly the getter's result")
        unchanged_except(ex,s0,{LF:[ex.W.E],CLZ:'*'},objects=True)
    return body
def handle_of(ex,f,fw):
    """the variable pointer or member pointer the accessor was installed with"""
    w=f.params()[0][2].to.base; t=[x for x in ex.P.recs[w]['fields'] if x['n']=='t']
    if len(t)!=1: raise Unsupported('accessor layout')
    for b in ex.P.bases_of(t[0]['t'].base):
        for x in ex.P.recs.get(b,{}).get('fields',()):
            if x['n']=='handle': return HeapLV('%s.handle'%b,ex.subref(w,'t',fw),x['t'],ex.sort(x['t'])).load(ex)
    raise Unsupported('accessor layout')
def direct(ex,hd,T,setter,recv,jv,val,r,s0):
    ks=[k for k in ex.store if (k[0]=='M' and k[1]!='jvalue' and s0.get(k) is None) or (k[0]=='H' and k[1].startswith('mp.'))]
    ex.post(BoolVal(len(ks)==1),'one location is accessed'); 
    if len(ks)!=1: raise PathEnd()
    k=ks[0]; now=ex.store[k]; at=(lambda m: Select(Select(m,Ptr.blk(hd)),Ptr.off(hd))) if k[0]=='M' else (lambda m: Select(m,func('member',I,I,I)(recv,hd)))
    if setter:
        x=at(now); ex.post(x==(val if T=='Object' else func('jv_'+MEMB[T],JV,x.sort())(jv)),'exactly the value given is stored there')
        old=s0.get(k,ex.init_heap.get(k)); put=Store(old,Ptr.blk(hd),Store(Select(old,Ptr.blk(hd)),Ptr.off(hd),x)) if k[0]=='M' else Store(old,func('member',I,I,I)(recv,hd),x)
        q=Const('qq',I); q2=Const('qq2',I); ex.post((Select(Select(now,q),q2)==Select(Select(put,q),q2)) if k[0]=='M' else Select(now,q)==Select(put,q),'and nowhere else')
    else: ex.post(r==at(now),'exactly its value is returned')
    unchanged_except(ex,s0,{LF:[ex.W.E],CLZ:'*',('mem.' if k[0]=='M' else '')+k[1]:'*'},objects=True)
def recobj_of(ex,f,ref): return p10.recobj_of(ex,f,ref)
def goals(P):
    C=ccfg(P); CA=ccfg(P,on_abort=aborts); G=unpack_for(P,[OBJ,CLS])
    for st in(False,True):
        for T in FT:
            s='Static' if st else ''
            for setter in(False,True):
                n=('Set' if setter else 'Get')+s+T+'Field'; G+=[Goal(n,access(st,T,setter),cfg=C),Goal(n+' with an ID of the wrong kind',mismatch(st,T,setter),cfg=CA)]
            G.append(Goal('Set%s%sField ignored'%(s,T),ignored(st,T),cfg=C))
    sc=ccfg(P,indirect=p10.ext_call); G+=[Goal('accessor %s of %s'%(n,T),shape(P,n,T),cfg=sc) for n in SHAPES+DIRECT for T in FT]
    return G
