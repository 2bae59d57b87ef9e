"""P06: primitive arrays"""
from arrays import *
FILES=core_files()
def g_new(T,t,c):
    def body(ex):
        world(ex); n=Const('n',I); ex.assume(And(n>=0,n<2**31)); names=[]
        ex.fc_hook=lambda ex,E,s: names.append(s); live0=ex.hmap('blk.live',B); s0=ex.old(); E=ex.W.E
        r=noexc(ex,lambda: jni(ex,'New%sArray'%T,n)); ex.reach(); a0=Int('alloc!0'); q=Const('q',I)
        ex.post(And(r>a0,ex.isa(AT(t),r)),'a new array of that element type'); ex.post(get(ex,AV,'length',r)==n,'the length is the one asked for')
        p=data(ex,r); b=Ptr.blk(p)
        ex.post(And(b>a0,Ptr.off(p)==0,Select(ex.blksize(),b)>=n),'storage of its own, large enough'); ex.post(Select(ex.hmap('blk.live',B),b),'the storage is live'); ex.post(get(ex,AT(t),'owner',r),'the array owns its storage')
        ex.post(Implies(And(q>a0,q!=b,Not(Select(live0,q))),Not(Select(ex.hmap('blk.live',B),q))),'no other storage stays allocated')
        ex.post(Implies(And(q>=0,q<n),Select(Select(elems(ex,t),b),q)==ex.zero(esort(t))),'every element is zero')
        ex.post(BoolVal(len(names)==1),'one class looked up')
        if len(names)==1: ex.post(And(slen(names[0])==2,sat(names[0],0)==ord('['),sat(names[0],1)==ord(c)),'its class is the array class of the element type'); ex.post(get(ex,OBJ,'clazz',r)==ex.fc_ret[-1],'its class is recorded')
        pushed(ex,s0,[r]); unchanged_except(ex,s0,{**TREE,LF:[E]},objects=True)
    k=cfg_fc(); k['contracts'].update(TJ); return Goal('New%sArray'%T,body,cfg=k)
def g_length(ex):
    world(ex); h,r0=handle_to(ex,'a',AV); r=Const('a_o',I); ex.assume(r==r0); n=get(ex,AV,'length',r); s0=ex.old()
    v=noexc(ex,lambda: jni(ex,'GetArrayLength',h)); ex.reach(); ex.post(v==n,'the length of the array'); unchanged_except(ex,s0,{})
def g_length0(ex):
    world(ex); s0=ex.old(); v=noexc(ex,lambda: jni(ex,'GetArrayLength',IntVal(0))); ex.reach(); ex.post(v==0,'0 for null'); unchanged_except(ex,s0,{})
def g_region(T,t,wr):
    def body(ex):
        world(ex); h,r,n,p=arr(ex,t); st,ln=Const('start',I),Const('len',I); ex.assume(And(st>=0,ln>=0,st+ln<=n)); b,o=Const('buf',I),Const('bo',I)
        ex.assume(And(b>0,b<=ex.alloc,o>=0,Select(ex.blksize(),b)>=o+ln,b!=Ptr.blk(p))); m0=elems(ex,t); s0=ex.old(); q=Const('q',I)
        noexc(ex,lambda: jni(ex,('Set' if wr else 'Get')+'%sArrayRegion'%T,h,st,ln,Ptr.mkp(b,o))); ex.reach(); m=elems(ex,t); A=Ptr.blk(p); ao=Ptr.off(p)
        if wr: D,do,S,so=A,ao+st,b,o
        else: D,do,S,so=b,o,A,ao+st
        ex.post(Implies(And(q>=0,q<ln),Select(Select(m,D),do+q)==Select(Select(m0,S),so+q)),'exactly the elements [start,start+len) are copied, in order')
        ex.post(Implies(Or(q<do,q>=do+ln),Select(Select(m,D),q)==Select(Select(m0,D),q)),'every other element of the destination is unchanged')
        unchanged_except(ex,s0,{'mem.'+t:[D]})
    return Goal(('Set' if wr else 'Get')+'%sArrayRegion'%T,body,cfg=cfg())
def g_elements(T,t,entry=None):
    def body(ex):
        world(ex); h,r,n,p=arr(ex,t); s0=ex.old(); raw=get(ex,AV,'data',r)
        v=noexc(ex,lambda: jni(ex,entry or 'Get%sArrayElements'%T,h,PNULL)); ex.reach()
        if v.sort()==Ptr: ex.post(v==p,'designates the live elements of the array')
        else: ex.post(v==raw,'designates the live elements of the array')
        unchanged_except(ex,s0,{})
        noexc(ex,lambda: jni(ex,(entry or 'Get%sArrayElements'%T).replace('Get','Release'),h,v,Const('mode',I))); unchanged_except(ex,s0,{},name='release frees and changes nothing')
    return Goal(entry or 'Get/Release%sArrayElements'%T,body,cfg=cfg())
def g_elements_copyflag(T,t,entry=None):
    def body(ex):
        world(ex); h,r,n,p=arr(ex,t); cb,co=Const('cb',I),Const('co',I); ex.assume(And(cb>0,cb<=ex.alloc,cb!=Ptr.blk(p),co>=0,Select(ex.blksize(),cb)>co)); s0=ex.old()
        v=noexc(ex,lambda: jni(ex,entry or 'Get%sArrayElements'%T,h,Ptr.mkp(cb,co))); ex.reach()
        ex.post(v==(p if v.sort()==Ptr else get(ex,AV,'data',r)),'designates the live elements of the array'); ex.post(Select(Select(ex.mem('unsigned char',I),cb),co)==0,'reported as no copy')
        unchanged_except(ex,s0,{'mem.unsigned char':[cb]})
    return Goal((entry or 'Get%sArrayElements'%T)+' (isCopy)',body,cfg=cfg())
def g_elements0(T,t,entry=None):
    def body(ex):
        world(ex); s0=ex.old(); v=noexc(ex,lambda: jni(ex,entry or 'Get%sArrayElements'%T,IntVal(0),PNULL)); ex.reach(); ex.post(v==(PNULL if v.sort()==Ptr else IntVal(0)),'null for null'); unchanged_except(ex,s0,{})
    return Goal((entry or 'Get%sArrayElements'%T)+' (null)',body,cfg=cfg())
def g_dtor(T,t):
    """the storage is freed exactly once, exactly if owned"""
    def body(ex):
        f=ex.P.fns.get(ex.P.recs[AT(t)].get('dtor'))
        if f is None: raise Unsupported('destructor of %s'%AT(t))
        r=Const('r',I); ex.assume(And(r>0,r<=ex.alloc)); p=data(ex,r); own=get(ex,AT(t),'owner',r); l0=ex.hmap('blk.live',B)
        ex.assume(Implies(own,Or(Ptr.blk(p)==0,And(Ptr.off(p)==0,Select(l0,Ptr.blk(p)))))); s0=ex.old()
        noexc(ex,lambda: ex.invoke(f,recobj(ex,AT(t),r),[])); ex.reach(); l=ex.hmap('blk.live',B); q=Const('q',I)
        ex.post(Implies(And(own,Ptr.blk(p)!=0),Not(Select(l,Ptr.blk(p)))),'owned storage is freed'); ex.post(Implies(Not(own),Select(l,q)==Select(l0,q)),'foreign storage is not freed'); ex.post(Implies(q!=Ptr.blk(p),Select(l,q)==Select(l0,q)),'no other storage is freed')
    return Goal('~Array<%s>'%t,body,cfg=cfg())
def goals(P):
    G=unpack_for(P,[AV]+[AT(t) for _,t,_ in PRIM])+[Goal('GetArrayLength',g_length,cfg=cfg()),Goal('GetArrayLength (null)',g_length0,cfg=cfg())]
    for T,t,c in PRIM: G+=[g_new(T,t,c),g_region(T,t,False),g_region(T,t,True),g_elements(T,t),g_elements_copyflag(T,t),g_elements0(T,t),g_dtor(T,t)]
    G+=[g_elements('Int','int','GetPrimitiveArrayCritical'),g_elements_copyflag('Int','int','GetPrimitiveArrayCritical'),g_elements0('Int','int','GetPrimitiveArrayCritical')]
    return G
