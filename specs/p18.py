"""P18: unhooked calls and field reads return the documented default value"""
from calls import *
import p10
FILES=core_files()
PRIM=dict(Z='Boolean',B='Byte',C='Char',S='Short',I='Int',J='Long',F='Float',D='Double')
NA='jnivm::NewArray'; NOA='jnivm::NewObjectArray'
class SlotC:
    """array constructors of the function table: logged, return a new object; P06 and P07 prove what they make"""
    def __init__(s,kind): s.kind=kind
    def use(s,ex,fn): return True
    def apply(s,ex,n,fn,this,args):
        a=[x.load(ex) if isinstance(x,LV) else x for x in args]; f=ex.P.fns[fn['id']]; ex.used_contracts.add('%s (array constructor of the function table)'%fn['qn']); r=ex.new_ref(); ex.made.append(dict(id=f.id,args=a,ret=r)); return r
def inst_call(ex,n,fn,f,lv,args):
    """Class::Instantiate(env): a new object"""
    if 'vector' in str(ex.T(n).s): return p16.call_bases(ex,n,fn,f,lv,args)
    a=[x.load(ex) if isinstance(x,LV) else x for x in args]; r=ex.fresh(I,'instance'); ex.assume(And(r>0,r<=ex.alloc)); ex.trust('Class::Instantiate returns the new instance it makes (installed by the library or the user; not null)'); ex.made.append(dict(inst=f,args=a,ret=r)); return r
def dv(ex,T):
    fs=[f for f in ex.P.fns.values() if f.sqn=='jnivm::defaultVal' and f.d is not None and f.d.get('body') and norm((f.targs() or [str(f.ret().s)])[0])==norm(CT[T])]
    if len(fs)!=1: raise Unsupported('defaultVal<%s>: %d candidates'%(T,len(fs)))
    return fs[0]
def sigarg(ex,sg): return sg
def prim(T):
    def body(ex):
        reset(ex); ex.made=[]; world(ex); sg=Const('sg',Str); ex.assume(slen(sg)>=0); s0=ex.old(); f=dv(ex,T); r=noexc(ex,lambda: ex.invoke(f,None,[ex.W.E,sg])); ex.reach()
        if T!='Void': ex.post(iszero(ex,r),'the default value is zero')
        unchanged_except(ex,s0,{},objects=True)
    return body
def iszero(ex,r):
    if r.sort()==B: return Not(r)
    return r==ex.zero(r.sort())
def native(ex,c,st=None):
    """a native type is attached to class c"""
    m=get(ex,'jnivm::VM','typecheck',ex.W.V) if st is None else oldF(ex,st,'jnivm::VM','typecheck',ex.W.V); so=m.sort(); q=Const('qty',so.kk); return Exists([q],And(Select(so.dom(m),q),Select(so.val(m),q)==c))
def notclass(st,q):
    m=get(st,'jnivm::VM','typecheck',st.W.V); return Select(m.sort().val(m),q)!=(st.fc_ret[-1] if st.fc_ret else IntVal(-1))
def obj(arr):
    def body(ex):
        reset(ex); ex.made=[]; ex.fc_ret=[]; ex.mapscan={'not the class looked up':notclass}; world(ex); sg=Const('sg',Str); ex.assume(nonul(sg)); k=p10.last_close(ex,sg); n=slen(sg)
        for i in(1,2): ex.str_at(sg,k+i)
        t=sat(sg,k+1); ex.assume((t==ord('[')) if arr else (t!=ord('['))); d=sat(sg,k+2); s0=ex.old(); a0=ex.alloc; f=dv(ex,'Object'); p0=pending(ex); fr0=get(ex,'jnivm::ENV','localframe',ex.W.E)
        r=noexc(ex,lambda: ex.invoke(f,None,[ex.W.E,sg])); ex.reach(); M=ex.made; frame={}
        if arr: case_array(ex,sg,k,n,d,r,M)
        else: case_object(ex,sg,k,n,t,r,M,s0,a0)
        ex.post(pending(ex)==p0,'the pending exception is left alone'); unchanged_except(ex,s0,dict(TREE,**{LF:[ex.W.E],CLZ:'*'}),objects=True); held_balanced(ex,s0)
    return body
def case_array(ex,sg,k,n,d,r,M):
    ex.post(BoolVal(len(M)<=1),'at most one array is made')
    codes=list(PRIM)+['L','[']
    if not M: ex.post(r==0,'null'); ex.post(And(*[d!=ord(c) for c in codes]),'null only if there is no known element type'); return
    if len(M)!=1: raise PathEnd()
    e=M[0]; a=e['args']
    if 'inst' in e: ex.post(BoolVal(False),'an array is made'); raise PathEnd()
    ex.post(r==e['ret'],'the new array is returned'); ex.post(a[0]==ex.W.env,'in the calling environment')
    ex.post(a[1]==0,'the array is empty')
    pr=[c for c,T in PRIM.items() if slotfn(ex,'New%sArray'%T).id==e['id']]
    if pr: ex.post(d==ord(pr[0]),'an array of the declared element type (%s)'%PRIM[pr[0]]); return
    ex.post(BoolVal(slotfn(ex,'NewObjectArray').id==e['id']),'an array constructor of the table'); fc=ex.fc_ret; ex.post(a[3]==0,'without initial element')
    ex.post(BoolVal(len(fc)>=1),'the element class is looked up')
    if not fc: raise PathEnd()
    c=fc[-1]; ex.post(a[2]==c,'an array of the class looked up'); nm=get(ex,CLS,'nativeprefix',c)
    ex.post(Or(d==ord('['),d==ord('L')),'an object array is declared')
    ex.post(Implies(d==ord('['),nm==ex.mk_sub(sg,k+2,n-(k+2))),'array of arrays: the element class is the array class declared after the first bracket')
    ex.post(Implies(And(d==ord('L'),sat(sg,n-1)==ord(';')),nm==ex.mk_sub(sg,k+3,n-(k+4))),'array of objects: the element class is the declared class')
def case_object(ex,sg,k,n,t,r,M,s0,a0):
    isobj=And(t==ord('L'),sat(sg,n-1)==ord(';')); ins=[e for e in M if 'inst' in e]; ex.post(BoolVal(len(M)==len(ins) and len(ins)<=1),'no array, at most one instance')
    if len(M)>1: raise PathEnd()
    fc=ex.fc_ret
    if not fc: ex.post(And(BoolVal(not ins),r==0),'null'); ex.post(Not(isobj),'null only if no class is declared'); return
    c=fc[-1]; ex.post(isobj,'a class is declared'); ex.post(get(ex,CLS,'nativeprefix',c)==ex.mk_sub(sg,k+2,n-(k+3)),'the declared class is looked up'); I_=get(ex,CLS,'Instantiate',c); top=pushed_obj(ex,s0)
    if ins: e=ins[0]; ex.post(And(e['inst']==I_,I_!=0),'the default constructor of the declared class'); ex.post(e['args'][0]==ex.W.E,'in the calling environment'); ex.post(r==e['ret'],'its instance is returned'); ex.post(top==r,'as a local reference'); return
    ex.post(I_==0,'the class has no default constructor'); nat=native(ex,c)
    ex.post(Implies(nat,r==0),'null when a native type is attached to the class'); ex.post(Implies(Not(nat),And(r>a0,get(ex,OBJ,'clazz',r)==c)),'otherwise a new object of that class'); ex.post(Implies(r!=0,top==r),'as a local reference')
    ex.post(Implies(r!=0,And(*[Not(ex.isa(q,r)) for q in(WEAK,GLOB,CLS,MET,THR)])),'a plain object')
def pushed_obj(ex,s0):
    fr=get(ex,'jnivm::ENV','localframe',ex.W.E); so=fr.sort(); top=Select(so.arr(fr),so.len(fr)-1); ts=top.sort(); return Select(ts.arr(top),ts.len(top)-1)
def fieldget(kind,T):
    """GetField without getter or with a null ID"""
    def body(ex):
        reset(ex); ex.made=[]; world(ex); fid=Const('fid',I); ex.assume(And(fid>0,fid<=ex.alloc,ex.isa(FLD,fid),get(ex,FLD,'getnativehandle',fid)==0)); sg=get(ex,FLD,'type',fid)
        if kind=='Static': h,_=handle_to(ex,'cls',CLS)
        else: h=handle(ex,'obj')
        if ex.branch(Const('null_receiver',B)): h=IntVal(0)
        nul=ex.branch(Const('null_id',B)); s0=ex.old(); p0=pending(ex)
        r=noexc(ex,lambda: jni(ex,'Get%s%sField'%(kind,T),h,IntVal(0) if nul else fid)); ex.reach(); ex.post(BoolVal(not ex.__dict__.get('calls')),'nothing is called'); one_default(ex,T,r,ex.lit(b'') if nul else sg); ex.post(pending(ex)==p0,'the pending exception is left alone'); unchanged_except(ex,s0,{LF:[ex.W.E],CLZ:'*'},objects=True)
    return body
FLD='jnivm::Field'
def goals(P):
    G=[]; C=cfg_fc(stdfunction=inst_call,loop_templates=[scans(),mapscans],exact_isa=(THR,WEAK,GLOB,CLS,MET)); C['contracts'].update(TJ); C['contracts'][NA]=SlotC('prim'); C['contracts'][NOA]=SlotC('obj')
    for T in TYPES:
        if T!='Object': G.append(Goal('defaultVal<%s>'%T,prim(T),cfg=C))
    G+=[Goal('defaultVal<Object> of arrays',obj(True),cfg=C),Goal('defaultVal<Object> of objects',obj(False),cfg=C)]
    CC=ccfg(P)
    for kind in('','Nonvirtual','Static'): G+=[Goal('Call%s%sMethodA unhooked'%(kind,T),p10.unhooked(kind,T),cfg=CC) for T in TYPES]
    for kind in('','Static'): G+=[Goal('Get%s%sField unhooked'%(kind,T),fieldget(kind,T),cfg=CC) for T in TYPES if T!='Void']
    return G
