from verify import *
FILES=['src/jnivm/internal/stringUtil.cpp']
U='jnivm::'
def u(b): return b%256
# --- specification functions (Modified UTF-8 of the JVM specification, 4.4.7), over unsigned bytes
def cont(b): return And(u(b)>=0x80,u(b)<=0xBF)
def lead1(b): return u(b)<0x80
def lead2(b): return And(u(b)>=0xC0,u(b)<=0xDF)
def lead3(b): return And(u(b)>=0xE0,u(b)<=0xEF)
def dec1(b0): return u(b0)
def dec2(b0,b1): return (u(b0)-0xC0)*64+(u(b1)-0x80)
def dec3(b0,b1,b2): return (u(b0)-0xE0)*4096+(u(b1)-0x80)*64+(u(b2)-0x80)
def enclen(c): return If(And(c>=1,c<=0x7f),1,If(c<=0x7ff,2,3))
def encbyte(c,k):
    l=enclen(c)
    return If(l==1,c,If(l==2,[0xC0+c/64,0x80+c%64,0][k],[0xE0+c/4096,0x80+(c/64)%64,0x80+c%64][k]))
def fn(ex,name): 
    f=ex.P.find('jnivm::'+name)
    if len(f)!=1: raise Unsupported('function %s not found'%name)
    return f[0]
def instr(ex):
    """a pointer anywhere into a NUL-terminated byte string"""
    s=Const('s',Str); o=Const('o',I)
    ex.assume(And(nonul(s),slen(s)>=0,slen(s)<2**31,o>=0,o<=slen(s)))
    return s,o,CSs.mk(s,o)
def bytes3(ex,s,o):
    b=[ex.str_at(s,o),ex.str_at(s,o+1),ex.str_at(s,o+2)]
    for x in b: ex.assume(And(x>=-128,x<=127))
    return b
def wf(b): return Or(lead1(b[0]),And(lead2(b[0]),cont(b[1])),And(lead3(b[0]),cont(b[1]),cont(b[2])))
def wlen(b): return If(lead1(b[0]),1,If(lead2(b[0]),2,3))
def wval(b): return If(lead1(b[0]),dec1(b[0]),If(lead2(b[0]),dec2(b[0],b[1]),dec3(*b)))
def g_len(ex):
    s,o,cs=instr(ex); f=fn(ex,'UTFToJCharLength')
    try: r=ex.invoke(f,None,[cs])
    except CppThrow:
        b=bytes3(ex,s,o); ex.reach(); ex.post(Not(wf(b)),'throws only on malformed encodings'); return
    b=bytes3(ex,s,o); ex.reach()
    ex.post(wf(b),'returns only on well-formed encodings'); ex.post(r==wlen(b),'length is the number of bytes of the unit')
def g_len_null(ex):
    f=fn(ex,'UTFToJCharLength')
    try: ex.invoke(f,None,[CSs.null])
    except CppThrow: ex.reach(); ex.post(BoolVal(True),'null input throws'); return
    ex.post(BoolVal(False),'null input throws')
def g_dec(ex):
    s,o,cs=instr(ex); f=fn(ex,'UTFToJChar'); ity=f.params()[1][2].to
    ex.store[('X','size')]=ex.fresh(I,'size0'); ref=StoreLV(('X','size'),ity)
    try: r=ex.invoke(f,None,[cs,ref])
    except CppThrow:
        b=bytes3(ex,s,o); ex.reach(); ex.post(Not(wf(b)),'throws only on malformed encodings'); return
    b=bytes3(ex,s,o); ex.reach()
    ex.post(wf(b),'returns only on well-formed encodings'); ex.post(r==wval(b),'decodes the unit'); ex.post(ref.load(ex)==wlen(b),'size is the number of bytes consumed')
def unit(ex):
    c=Const('c',I); ex.assume(And(c>=0,c<=0xffff)); return c
def g_elen(ex):
    c=unit(ex); r=ex.invoke(fn(ex,'JCharToUTFLength'),None,[c]); ex.reach(); ex.post(r==enclen(c),'encoded length')
def g_enc(ex):
    c=unit(ex); f=fn(ex,'JCharToUTF'); n=Const('len',I); ex.assume(And(n>=-2**31,n<2**31))
    b=Const('buf',I); o=Const('off',I); ex.assume(And(b>0,b<=ex.alloc,o>=0)); ex.assume(Implies(n>=0,Select(ex.blksize(),b)>=o+n))
    m0=ex.mem('char',I); p=Ptr.mkp(b,o)
    try: r=ex.invoke(f,None,[c,p,n])
    except CppThrow:
        ex.reach(); ex.post(n<enclen(c),'throws only when the buffer is too small'); 
        q=Const('q',I); m1=ex.mem('char',I); ex.post(Select(Select(m1,b),q)==Select(Select(m0,b),q),'buffer untouched on failure'); return
    ex.reach(); m1=ex.mem('char',I); l=enclen(c)
    ex.post(r==l,'returns the encoded length'); ex.post(n>=l,'never accepts a buffer that is too small')
    for k in range(3): ex.post(Implies(k<l,u(Select(Select(m1,b),o+k))==encbyte(c,k)),'byte %d of the encoding'%k)
    q=Const('q',I); bb=Const('bb',I)
    ex.post(Implies(Or(q<o,q>=o+l),Select(Select(m1,b),q)==Select(Select(m0,b),q)),'writes only the encoded bytes')
    ex.post(Implies(bb!=b,Select(m1,bb)==Select(m0,bb)),'writes only into the buffer')
def g_lemma(ex):
    """lemma over the contracts: decode(encode(c)) == c, encodings are well-formed, contain no NUL, and encode(decode(b)) == b for canonical b"""
    c=unit(ex); e=[encbyte(c,k) for k in range(3)]; l=enclen(c)
    ex.reach()
    for k in range(3): ex.post(Implies(k<l,And(e[k]>=1,e[k]<=255)),'encoded bytes are never NUL and fit a byte')
    ex.post(And(wf(e),wlen(e)==l,wval(e)==c),'decode(encode(c)) == c for every UTF-16 code unit')
    b=[Int('b%d'%k) for k in range(3)]
    for x in b: ex.assume(And(x>=0,x<=255))
    v=wval(b); canon=And(wf(b),enclen(v)==wlen(b))
    ex.post(Implies(canon,And([Implies(k<wlen(b),encbyte(v,k)==b[k]) for k in range(3)])),'encode(decode(b)) == b for every canonical unit')
GOALS=[Goal('UTFToJCharLength',g_len,fns=['jnivm::UTFToJCharLength']),Goal('UTFToJCharLength(null)',g_len_null,fns=['jnivm::UTFToJCharLength']),Goal('UTFToJChar',g_dec,fns=['jnivm::UTFToJChar']),
 Goal('JCharToUTFLength',g_elen,fns=['jnivm::JCharToUTFLength']),Goal('JCharToUTF',g_enc,fns=['jnivm::JCharToUTF']),Goal('lemma: mUTF-8 round trip',g_lemma)]
