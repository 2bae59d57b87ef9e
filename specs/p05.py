from common import *
import p04
FILES=core_files()
STR='jnivm::String'
off=func('off',Str,I,I); unitf=func('unit',Str,I,I); idx=func('idx',Str,I,I); nun=func('nunits',Str,I); pe=func('pe',I,Str)
def fact(ex,f):
    i=f.get_id(); d=ex.__dict__.setdefault('_facts',{})
    if d.get(('pc',i)) is ex.pc: return
    d[('pc',i)]=ex.pc; ex.keep.append(f); ex.assume(f)
def wf_inst(ex,s,k,marks=()):
    """well-formedness of s (a sequence of nunits(s) encoded code units) instantiated at index k"""
    o=off(s,k); n=nun(s); b=[ex.str_at(s,o),ex.str_at(s,o+1),ex.str_at(s,o+2)]
    for x in b: fact(ex,And(x>=-128,x<=127))
    fact(ex,Implies(And(k>=0,k<n),And(p04.wf(b),off(s,k+1)==o+p04.wlen(b),o+p04.wlen(b)<=slen(s),o>=0,unitf(s,k)==p04.wval(b),unitf(s,k)>=0,unitf(s,k)<=0xffff)))
    fact(ex,Implies(And(k>=0,k<=n),And(o>=0,o<=slen(s),idx(s,o)==k,(o==slen(s))==(k==n))))
    for m in list(marks)+[n]:
        fact(ex,Implies(And(k>=0,k<m,m<=n),And(o+p04.wlen(b)<=off(s,m),o<off(s,m))))
        fact(ex,Implies(And(k>=0,k<=m,m<=n),o<=off(s,m)))
def wfstring(ex,s,marks=()):
    n=nun(s); ex.assume(And(n>=0,n<2**31,slen(s)>=0,slen(s)<2**31)); ex.assume(off(s,IntVal(0))==0); ex.assume(off(s,n)==slen(s))
    ex.wf=getattr(ex,'wf',{}); ex.wf={str(s):(s,list(marks))}
    wf_inst(ex,s,IntVal(0),marks)
    for m in marks: wf_inst(ex,s,m,marks)
def templates(ex,ent,info,n,index,d):
    """candidate loop invariants for walks over an encoded string"""
    out={}
    for s,marks in getattr(ex,'wf',{}).values():
        for (k,g,e) in d['css']:
            ks=lambda st,k=k: CSs.s(st.store[k])
            i0=idx(s,e)
            vs=[(kv,gv,ev) for (kv,gv,ev) in d['ints']+d['ptrs']]
            for kv,gv,ev in vs:
                for sg in(1,-1):
                    def f(st,k=k,g=g,gv=gv,ev=ev,sg=sg,i0=i0):
                        ix=z3.simplify(i0+sg*(gv(st)-ev)); wf_inst(st,s,ix,marks); wf_inst(st,s,i0,marks)
                        return And(CSs.s(st.store[k])==s,g(st)==off(s,ix),ix>=0,ix<=nun(s))
                    out['off(%s)==off(s,i0%+d*%s)'%(d['name'](k),sg,d['name'](kv))]=f
            for mk,m in info.mod.items():
                if mk[0]!='M' or not isinstance(m,dict): continue
                for sx,r in m.items():
                    for kp,gp,ep in d['ptrs']+d['ints']:
                        q=Int('q')
                        b0=ep if (kp,gp,ep) in d['ptrs'] else None
                        if b0 is None: continue
                        def fu(st,mk=mk,r=r,gp=gp,ep=ep,i0=i0):
                            return ForAll([q],Implies(And(q>=ep,q<gp(st)),Select(Select(st.store[mk],r),q)==unitf(s,i0+(q-ep))))
                        def fb(st,mk=mk,r=r,gp=gp,ep=ep,e=e):
                            return ForAll([q],Implies(And(q>=ep,q<gp(st)),Select(Select(st.store[mk],r),q)==sat(s,e+(q-ep))))
                        if mk[1]=='char': out['bytes written [%s] of %s'%(d['name'](kp),mk[1])]=fb
                        else: out['units written [%s] of %s'%(d['name'](kp),mk[1])]=fu
    return out
def sval(ex,r,store=None):
    key=[k for k in ex.store if k[0]=='H' and k[1].startswith('cell.std::basic_string')]
    bt=[b['t'] for b in ex.P.recs[STR]['bases'] if ex.rk(b['t'])=='str'][0]
    lv=HeapLV('cell.'+bt.base,r,bt,Str)
    if store is None: return lv.load(ex)
    return Select(store.get(('H',lv.key),ex.init_heap.get(('H',lv.key),ex.hmap(lv.key,Str))),r)
def strh(ex,marks=()):
    world(ex); h,r=handle_to(ex,'str',STR); v=z3.simplify(sval(ex,r)); s=Const('S',Str); ex.assume(s==v)
    # name the resolved object and its contents
    return h,r,s
def setstr(ex,h,r):
    """contents S of the string object r"""
    s=Const('S',Str); bt=[b['t'] for b in ex.P.recs[STR]['bases'] if ex.rk(b['t'])=='str'][0]; k='cell.'+bt.base
    ex.store[('H',k)]=Store(ex.hmap(k,Str),r,s); ex.assume(Select(ex.init_heap[('H',k)],r)==s)
    return s
def strobj(ex):
    """handle resolving to a String object with contents S; the handle kinds are covered by the contract of UnpackJObject"""
    world(ex); h,r=handle_to(ex,'str',STR)
    ro=Const('so',I); ex.assume(And(ro==r,ro>0,ro<=ex.alloc))
    ex.resmap={h.get_id():ro}
    bt=[b['t'] for b in ex.P.recs[STR]['bases'] if ex.rk(b['t'])=='str'][0]; k='cell.'+bt.base
    s=Const('S',Str); h0=ex.hmap(k,Str); ex.assume(Select(h0,ro)==s); ex.store[('H',k)]=Store(h0,ro,s)
    ex.assume(slen(s)>=0)
    return h,ro,s
def g_len(ex):
    h,r,s=strobj(ex); wfstring(ex,s); s0=ex.old()
    n=noexc(ex,lambda: jni(ex,'GetStringLength',h)); ex.reach()
    ex.post(n==nun(s),'GetStringLength is the number of UTF-16 code units'); unchanged(ex,s0)
def g_len0(ex):
    world(ex); s0=ex.old()
    for f in('GetStringLength','GetStringUTFLength'):
        n=noexc(ex,lambda: jni(ex,f,IntVal(0))); ex.reach(); ex.post(n==0,'%s of null is 0'%f)
    unchanged(ex,s0)
def g_ulen(ex):
    h,r,s=strobj(ex); wfstring(ex,s); s0=ex.old()
    n=noexc(ex,lambda: jni(ex,'GetStringUTFLength',h)); ex.reach(); ex.post(n==slen(s),'GetStringUTFLength is the number of bytes'); unchanged(ex,s0)
def g_ulenbig(ex):
    h,r,s=strobj(ex)
    try: n=jni(ex,'GetStringUTFLength',h)
    except CppThrow: ex.reach(); ex.post(slen(s)>2**31-1,'throws only if the length does not fit'); return
    ex.reach(); ex.post(n==slen(s),'never returns a truncated length')
def region(ex,s):
    st,ln=Const('start',I),Const('len',I); ex.assume(And(st>=0,ln>=0,st+ln<=nun(s)))
    return st,ln
def buf(ex,size,off0=None):
    b=Const('buf',I); o=Const('bo',I); ex.assume(And(b>0,b<=ex.alloc,o>=0,Select(ex.blksize(),b)>=o+size)); return b,o
def g_region(ex):
    h,r,s=strobj(ex); st,ln=region(ex,s); wfstring(ex,s,[st,st+ln]); b,o=buf(ex,ln); s0=ex.old(); m0=ex.mem('unsigned short',I)
    noexc(ex,lambda: jni(ex,'GetStringRegion',h,st,ln,Ptr.mkp(b,o))); ex.reach()
    m=ex.mem('unsigned short',I); q=Const('q',I)
    ex.post(Implies(And(q>=0,q<ln),Select(Select(m,b),o+q)==unitf(s,st+q)),'delivers the code units [start,start+len) in order')
    ex.post(Implies(Or(q<o,q>=o+ln),Select(Select(m,b),q)==Select(Select(m0,b),q)),'writes only the announced part of the buffer')
    unchanged_except(ex,s0,{'mem.unsigned short':[b]})
def g_uregion(ex):
    h,r,s=strobj(ex); st,ln=region(ex,s); wfstring(ex,s,[st,st+ln]); size=off(s,st+ln)-off(s,st); b,o=buf(ex,size+1); s0=ex.old(); m0=ex.mem('char',I)
    noexc(ex,lambda: jni(ex,'GetStringUTFRegion',h,st,ln,Ptr.mkp(b,o))); ex.reach()
    m=ex.mem('char',I); q=Const('q',I)
    ex.post(Implies(And(q>=0,q<size),Select(Select(m,b),o+q)==sat(s,off(s,st)+q)),'delivers the encodings of the units')
    ex.post(Select(Select(m,b),o+size)==0,'terminated by one zero byte')
    ex.post(Implies(Or(q<o,q>o+size),Select(Select(m,b),q)==Select(Select(m0,b),q)),'writes only the announced part of the buffer')
    unchanged_except(ex,s0,{'mem.char':[b]})
def g_chars(which):
    def g(ex):
        h,r,s=strobj(ex); wfstring(ex,s); s0=ex.old(); n=nun(s)
        p=noexc(ex,lambda: jni(ex,which,h,PNULL)); ex.reach()
        m=ex.mem('unsigned short',I); q=Const('q',I); b=Ptr.blk(p)
        ex.post(And(b!=0,b>Int('alloc!0'),Ptr.off(p)==0),'a fresh buffer')
        ex.post(Implies(And(q>=0,q<n),Select(Select(m,b),q)==unitf(s,q)),'delivers every code unit in order')
        ex.post(Select(ex.hmap('blk.live',B),b),'buffer is live'); ex.post(Select(ex.blksize(),b)>=n,'buffer holds every unit')
        unchanged(ex,s0)
    return g
def g_relchars(which):
    def g(ex):
        world(ex); b=Const('b',I); ex.assume(And(b>0,b<=ex.alloc,Select(ex.hmap('blk.live',B),b))); l0=ex.hmap('blk.live',B); s0=ex.old()
        noexc(ex,lambda: jni(ex,which,handle(ex,'str'),Ptr.mkp(b,IntVal(0)))); ex.reach()
        ex.post(Not(Select(ex.hmap('blk.live',B),b)),'frees the buffer'); unchanged_except(ex,s0,{'blk.live':[b]})
    return g
def g_newutf(ex):
    world(ex); nul=Const('isnull',B); S0=Const('S0',Str); ex.assume(And(slen(S0)>=0,nonul(S0)))
    cs=If(nul,CSs.null,CSs.mk(S0,IntVal(0))); s0=ex.old()
    if ex.branch(nul): cs=CSs.null
    else: cs=CSs.mk(S0,IntVal(0))
    r=noexc(ex,lambda: jni(ex,'NewStringUTF',cs)); ex.reach()
    ex.post(And(r!=0,r>Int('alloc!0')),'a new object'); ex.post(ex.isa(STR,r),'of class String')
    ex.post(sval(ex,r)==(ex.lit(b'') if cs.eq(CSs.null) else S0),'keeps exactly the given bytes'); pushed(ex,s0,[r]); unchanged_except(ex,s0,{LF:[ex.W.E]})
def encstr(c):
    sb=lambda k: (lambda b: If(b>=128,b-256,b))(p04.encbyte(c,k))
    return If(p04.enclen(c)==1,bytestr[1](sb(0)),If(p04.enclen(c)==2,bytestr[2](sb(0),sb(1)),bytestr[3](sb(0),sb(1),sb(2))))
def pe_inst(ex,k):
    b,o=ex.nsbuf; m=ex.mem('unsigned short',I); c=Select(Select(ex.init_heap[('M','unsigned short')],b),o+k)
    en=func('encs',I,Str)(c); fact(ex,en==encstr(c)); fact(ex,slen(en)>=0); fact(ex,Implies(k>=0,pe(k+1)==ex.mk_cat(pe(k),en))); fact(ex,slen(pe(k))>=0); fact(ex,pe(IntVal(0))==ex.lit(b''))
    e=encstr(c); 
def ns_templates(ex,ent,info,n,index,d):
    out={}
    for k,v in d['others']:
        if v.sort()!=Str: continue
        for kv,gv,ev in d['ints']+d['ptrs']:
            for sg in(1,-1):
                def f(st,k=k,gv=gv,ev=ev,sg=sg):
                    i=z3.simplify(sg*(gv(st)-ev)); pe_inst(st,i); return And(st.store[k]==pe(i),i>=0)
                out['%s==encodings of the first %+d*%s units'%(d['name'](k),sg,d['name'](kv))]=f
    return out
def g_new(ex):
    world(ex); n=Const('size',I); ex.assume(And(n>=0,n<2**31-1)); b,o=buf(ex,n); ex.nsbuf=(b,o); ex.mem('unsigned short',I); pe_inst(ex,IntVal(0)); ex.assume(slen(ex.lit(b''))==0)
    s0=ex.old()
    r=noexc(ex,lambda: jni(ex,'NewString',Ptr.mkp(b,o),n)); ex.reach()
    ex.post(And(r!=0,r>Int('alloc!0')),'a new object'); ex.post(ex.isa(STR,r),'of class String')
    ex.post(sval(ex,r)==pe(n),'contents are the concatenated encodings of the code units'); pushed(ex,s0,[r]); unchanged_except(ex,s0,{LF:[ex.W.E]})
C=lambda **k: cfg(loop_templates=[templates],**k)
GOALS=[Goal('GetStringLength',g_len,cfg=C()),Goal('GetString(UTF)Length(null)',g_len0,cfg=C()),Goal('GetStringUTFLength',g_ulen,cfg=C()),Goal('GetStringUTFLength(any length)',g_ulenbig,cfg=C()),
 Goal('GetStringRegion',g_region,cfg=C()),Goal('GetStringUTFRegion',g_uregion,cfg=C()),Goal('GetStringChars',g_chars('GetStringChars'),cfg=C()),Goal('GetStringCritical',g_chars('GetStringCritical'),cfg=C()),
 Goal('ReleaseStringChars',g_relchars('ReleaseStringChars'),cfg=C()),Goal('ReleaseStringCritical',g_relchars('ReleaseStringCritical'),cfg=C()),Goal('NewStringUTF',g_newutf,cfg=C()),
]
NEW=[Goal('NewString',g_new,cfg=cfg(loop_templates=[ns_templates]))]
GOALS+=NEW
def goals(P): return unpack_for(P,[STR])+GOALS
