"""P10: calls reach the right function with the right arguments and result"""
from calls import *
import os
import invoke
FILES=core_files()+[os.path.join(os.path.dirname(os.path.abspath(__file__)),'inst','hooks.cpp'),invoke.INST]
def setup(ex,kind,T,hooked,recv):
    """kind: '', 'Nonvirtual', 'Static'"""
    reset(ex); world(ex); p16.hier(ex); mid,nm,sg=method(ex,hooked); ex.ov=(nm,sg,mid); args=[]; c=None
    if kind!='Static':
        if recv: h=handle(ex,'obj'); ro=Const('ro',I); ex.assume(ro==resolved(ex,h)); ex.assume(ro>0)
        else: h=IntVal(0)
        args.append(h)
        if kind=='' and recv:
            c=get(ex,OBJ,'clazz',ro)
            for k in(WEAK,GLOB,CLS): ex.isa(k,c)
            ex.assume(And(c>0,c<=ex.alloc,ex.isa(CLS,c),alive(c))); ex.trust('every live object a method is called on has its class recorded')
    if kind in('Nonvirtual','Static'):
        if recv: hc,rc=handle_to(ex,'cls',CLS); c=Const('c_',I); ex.assume(c==rc)
        else: hc=IntVal(0)
        args.append(hc)
    return mid,nm,sg,args,c
def dispatch(kind,T,recv):
    def body(ex):
        mid,nm,sg,args,c=setup(ex,kind,T,True,recv)
        if kind=='Static': target=mid; k='StaticInvoke'; rv=c if recv else IntVal(0)
        else:
            k='InstanceInvoke' if kind=='' else 'NonVirtualInstanceInvoke'; rv=args[0]
            if c is None: target=mid
            else: D=unfold_ov(ex,c,nm,sg); target=If(D!=0,D,mid)
        hh=get(ex,MET,'nativehandle',target); p=args_block(ex); s0=ex.old()
        r=noexc(ex,lambda: jni(ex,'Call%s%sMethodA'%(kind,T),*args,mid,p),'no C++ exception reaches the JNI caller'); ex.reach()
        ev=one_call(ex,k,T,hh,rv,p); tg=Const('target',I); outcome(ex,ev,T,r,sg); frame(ex,s0)
    return body
def unhooked(kind,T):
    def body(ex):
        mid,nm,sg,args,c=setup(ex,kind,T,False,True); p=args_block(ex); s0=ex.old(); nul=ex.branch(Const('null_id',B)); p0=pending(ex)
        r=noexc(ex,lambda: jni(ex,'Call%s%sMethodA'%(kind,T),*args,IntVal(0) if nul else mid,p)); ex.reach()
        ex.post(BoolVal(not ex.__dict__.get('calls')),'nothing is called'); one_default(ex,T,r,ex.lit(b'') if nul else sg); ex.post(pending(ex)==p0,'the pending exception is left alone'); frame(ex,s0)
    return body
def va_vals(ex,args):
    out=[]
    for x in args:
        if isinstance(x,PtrTo): x=x.lv
        if isinstance(x,LV): x=x.load(ex)
        out.append(x)
    return out
class FormC:
    """a call form used by another: logged"""
    def __init__(s,name): s.name=name
    def use(s,ex,fn):
        f=ex.P.fns.get(fn['id']); return not any(fr.fn is not None and f is not None and fr.fn.id==f.id for fr in ex.frames) and bool(ex.frames)
    def apply(s,ex,n,fn,this,args):
        f=ex.P.fns[fn['id']]; a=va_vals(ex,args); ex.used_contracts.add(fn['qn']); ev=dict(form=s.name,fn=f,args=a); ex.__dict__.setdefault('forms',[]).append(ev)
        p=a[-1]
        if s.name=='A': ev['mem']=Select(ex.mem(ex.memkey(f.params()[-1][2].to),JV),Ptr.blk(p))
        else: ev['cur']=ex.store[p.cur] if isinstance(p,VaList) else None
        rt=f.ret(); r=ex.fresh(ex.sort(rt),'res') if rt.k!='void' else IntVal(0); ev['ret']=r; return r
class MarshalC:
    def use(s,ex,fn): return True
    def apply(s,ex,n,fn,this,args):
        a=va_vals(ex,args); ex.used_contracts.add('jnivm::JValuesfromValist'); f=ex.P.fns[fn['id']]; r=ex.fresh(ex.sort(f.ret()),'values'); ex.assume(r.sort().len(r)>=0); ex.__dict__.setdefault('marshal',[]).append((a,r)); ex.trust('JValuesfromValist is used by its contract (proved by the JValuesfromValist goals): one value per parameter, in order')
        if ex.branch(ex.fresh(B,'malformed')): raise CppThrow('std::invalid_argument',Opaque('exc'),ex.new_ref())
        return r
def formcfg(P,form):
    k=ccfg(P); k['contracts']['jnivm::JValuesfromValist']=MarshalC(); k['contracts']['jnivm::MDispatchBase2::CallMethod']=FormC('A')
    if form=='': k['contracts']['jnivm::MDispatchBase::CallMethod']=FormC('V')
    return k
def form(kind,T,suffix):
    def body(ex):
        mid,nm,sg,args,c=setup(ex,kind,T,ex.branch(Const('is_hooked',B)),True); vid=Const('va_args',VL); nul=suffix=='V' and ex.branch(Const('null_id',B)); m=IntVal(0) if nul else mid; name='Call%s%sMethod'%(kind,T); tgt=slotfn(ex,name+('A' if suffix=='V' else 'V')); ck=('VA','spec'); cur=Const('cursor',I); s0=ex.old(); p0=pending(ex)
        if suffix=='V': ex.store[ck]=cur
        try: r=jni(ex,name+suffix,*args,m,*([VaList(vid,ck)] if suffix=='V' else []))
        except CppThrow: ex.reach(); ex.post(BoolVal(bool(ex.__dict__.get('marshal')) and not ex.__dict__.get('forms')),'only a malformed signature is reported to the caller'); return
        ex.reach(); fs=ex.__dict__.get('forms',[])
        if nul: ex.post(BoolVal(not fs and not ex.__dict__.get('calls')),'nothing is called'); one_default(ex,T,r,ex.lit(b'')); ex.post(pending(ex)==p0,'the pending exception is left alone'); return
        ex.post(BoolVal(len(fs)==1),'one call through the %s form'%('array' if suffix=='V' else 'va_list'))
        if len(fs)!=1: raise PathEnd()
        e=fs[0]; a=e['args']; ex.post(BoolVal(e['fn'].id==tgt.id),'the form of the same kind and return type'); ex.post(a[0]==ex.W.env,'same environment')
        for x,y in zip(a[1:],args): ex.post(x==y,'same receiver')
        ex.post(a[1+len(args)]==mid,'same method')
        if T!='Void': ex.post(r==e['ret'],'its result is returned unchanged')
        if suffix=='V':
            ms=ex.__dict__.get('marshal',[]); ex.post(BoolVal(len(ms)==1),'the arguments are read once')
            if len(ms)!=1: raise PathEnd()
            (ma,v)=ms[0]; ex.post(BoolVal(isinstance(ma[0],VaList) and ma[0].id is vid and ma[0].cur==ck),"from the caller's argument list"); ex.post(ex.store[ck]==cur,'at its current position'); ex.post(And(Not(CSs.is_null(ma[1])),ex.cstr(ma[1])==sg),"by the method's signature"); q=Const('q',I); so=v.sort()
            ex.post(Implies(And(q>=0,q<so.len(v)),Select(e['mem'],Ptr.off(a[-1])+q)==Select(so.arr(v),q)),'exactly these values are passed on, in order')
        else: ex.post(BoolVal(isinstance(a[-1],VaList) and a[-1].id is not None),'the variadic arguments are passed on'); ex.post(e['cur']==0,'from the first one')
        unchanged_except(ex,s0,{'mem.'+k[1]:'*' for k in ex.store if k[0]=='M'},objects=True)
    return body
CODE=dict(Boolean='Z',Byte='B',Char='C',Short='S',Int='I',Long='J',Float='F',Double='D',Void='V')
MEMB=dict(Boolean='z',Byte='b',Char='c',Short='s',Int='i',Long='j',Float='f',Double='d',Object='l')
def last_close(ex,sg):
    """position of the last ')' in a signature, -1: none"""
    k=Const('last_close',I); q=Const('qk',I); ex.assume(And(k>=-1,k<slen(sg),Implies(k>=0,sat(sg,k)==41),ForAll([q],Implies(And(q>k,q<slen(sg)),sat(sg,q)!=41),patterns=[sat(sg,q)]))); return k
def jinvoke(P,static):
    def body(ex):
        reset(ex); world(ex); f=[f for f in ex.P.fns.values() if f.sqn=='jnivm::Method::jinvoke' and f.d.get('body') and ('jclass' in f.params()[1][2].s or '_jclass' in str(f.params()[1][2].s))==static]
        if len(f)!=1: raise Unsupported('Method::jinvoke not found')
        mid,nm,sg,=method(ex,True); ex.assume(nonul(sg)); h=handle(ex,'receiver'); p=args_block(ex); s0=ex.old(); tc=sat(sg,last_close(ex,sg)+1); ex.str_at(sg,last_close(ex,sg)+1)
        try: r=ex.invoke(f[0],mid,[recobj(ex,'jnivm::ENV',ex.W.E),h,p])
        except CppThrow: ex.reach(); ex.post(And(*[tc!=ord(c) for c in 'ZBCSIJFDVL[']),'only a signature without a return type is refused'); ex.post(BoolVal(not ex.__dict__['forms']),'and nothing is called'); return
        ex.reach(); fs=ex.__dict__['forms']; ex.post(BoolVal(len(fs)==1),'exactly one call')
        if len(fs)!=1: raise PathEnd()
        e=fs[0]; T=[T for T in TYPES if slotfn(ex,'Call%s%sMethodA'%('Static' if static else '',T)).id==e['fn'].id]; ex.post(BoolVal(len(T)==1),'through the array form of the kind of receiver')
        if len(T)!=1: raise PathEnd()
        T=T[0]; ex.post(Or(tc==ord('L'),tc==ord('[')) if T=='Object' else tc==ord(CODE[T]),'of the declared return type'); a=e['args']
        ex.post(And(a[0]==ex.W.env,a[1]==h,a[2]==mid,a[3]==p),'with the same environment, receiver, method and arguments')
        if T!='Void':
            so=e['ret'].sort(); ex.post(func('jv_'+MEMB[T],JV,so)(r)==e['ret'],'the result is returned unchanged')
        frame(ex,s0)
    return body
def ext_call(ex,n,x,args):
    """call of the function behind a hook: external"""
    a=[]
    for v in args:
        if isinstance(v,PtrTo): v=v.lv
        if isinstance(v,LV): v=v.load(ex)
        a.append(v.ref if isinstance(v,Rec) else v)
    t=ex.T(n); ev=dict(fn=x,args=a,ret=None); ex.__dict__.setdefault('ext',[]).append(ev)
    if ex.branch(ex.fresh(B,'hook_throws')): raise CppThrow(None,None,ex.fresh(I,'exc'))
    if t.k!='void': r=ex.fresh(ex.sort(t),'result'); ex.on_read(r,t); ev['ret']=r; return r
    return IntVal(0)
PARAMS=['Boolean','Byte','Char','Short','Int','Long','Float','Double','Object']
SHAPES=dict(static_plain='',static_env='E',static_env_class='EC',static_class='C',instance_env_object='EO',instance_object='O',instance_member='O',nonvirtual_env_object='EO',nonvirtual_object='O')
def shape(P,name,T):
    fs=[f for f in P.fns.values() if f.sqn=='inst::Hook::'+name and f.d.get('body') and norm(f.d['qn'].split('<')[1].split(',')[0])==norm(CT[T])]
    def body(ex):
        reset(ex); ex.ext=[]; world(ex)
        if len(fs)!=1: raise Unsupported('instantiation %s<%s> not found'%(name,T))
        f=fs[0]; fw=Const('wrapper',I); ex.assume(And(fw>0,fw<=ex.alloc)); p=args_block(ex); ex.assume(Ptr.blk(p)>0); o=Ptr.off(p)
        ex.assume(And(Select(ex.blksize(),Ptr.blk(p))>=o+len(PARAMS),Select(ex.hmap('blk.live',B),Ptr.blk(p)))); va=Select(ex.mem('jvalue',JV),Ptr.blk(p))
        if name.startswith('static'): h,rc=None,Const('cls',I); ex.assume(And(rc>0,rc<=ex.alloc,ex.isa(CLS,rc))); recv=rv=rc
        elif name=='instance_member': h,recv=handle_to(ex,'obj','inst::Hook<%s>::Hold'%f.d['qn'].split('<',1)[1].rsplit('>::',1)[0]); ex.assume(recv>0); rv=h
        else: h=handle(ex,'obj'); recv=resolved(ex,h); rv=h
        ho=func('jv_l',JV,I)(Select(va,o+8))
        ptr=dict(zip(PARAMS,'zbcsijfd'))
        ex.assume(And(ho>=0,ho<=ex.alloc)); handle_inv(ex,ho); ro=resolved(ex,ho); s0=ex.old(); fr0=get(ex,'jnivm::ENV','localframe',ex.W.E)
        def run(): return ex.invoke(f,None,[recobj_of(ex,f,fw),ex.W.E,rv,p])
        try: r=run(); thrown=False
        except CppThrow: thrown=True
        ex.reach(); ex.post(BoolVal(len(ex.ext)==1),'the hooked function is called exactly once')
        if len(ex.ext)!=1: raise PathEnd()
        e=ex.ext[0]; a=e['args']; ex.post(BoolVal('(wrapper)' in str(e['fn'])),'the function this hook was installed with'); sh=SHAPES[name]; ex.post(BoolVal(len(a)==len(sh)+len(PARAMS)),'with one argument per parameter')
        if len(a)!=len(sh)+len(PARAMS): raise PathEnd()
        for c,x in zip(sh,a): ex.post(x==(ex.W.E if c=='E' else recv),'the environment first' if c=='E' else 'the receiver')
        for i,(T_,x) in enumerate(zip(PARAMS,a[len(sh):])):
            if T_=='Object': ex.post(x==ro,'object argument: the object its handle designates')
            else: ex.post(x==func('jv_'+ptr[T_],JV,x.sort())(Select(va,o+i)),'%s argument: the value given at its position'%T_)
        if not thrown and T not in('Void','Object'): ex.post(r==e['ret'],'the result is returned unchanged')
        if not thrown and T=='Object': ex.post(r==e['ret'],'a handle of the object returned')
        unchanged_except(ex,s0,{LF:[ex.W.E],CLZ:'*'},objects=True)
    return body
def recobj_of(ex,f,ref):
    t=f.params()[0][2]; t=t.to if t.k=='ref' else t; return Rec(ref,t)
def goals(P):
    import p17
    G=unpack_for(P,[OBJ,CLS]); C=ccfg(P)
    for kind in('','Nonvirtual','Static'):
        for T in TYPES:
            nm='Call%s%sMethod'%(kind,T); G.append(Goal(nm+'A',dispatch(kind,T,True),cfg=C))
            if kind: G.append(Goal(nm+'A without class',dispatch(kind,T,False),cfg=C))
            for s in('V',''): G.append(Goal(nm+(s or '(...)'),form(kind,T,s),cfg=formcfg(P,s)))
    jc=formcfg(P,'V'); G+=[Goal('Method::jinvoke(%s)'%n,jinvoke(P,st),cfg=jc) for n,st in(('object',False),('class',True))]
    sc=ccfg(P,indirect=ext_call); G+=[Goal('hook %s -> %s'%(n,T),shape(P,n,T),cfg=sc) for n in SHAPES for T in TYPES]
    G+=invoke.invoke_goals(P)
    return G+[g for g in p17.GOALS if g.name.startswith('JValues')]
