"""Assumed contracts of the C++ standard library and libc functions the code calls (trusted; listed in the evidence)."""
import z3
from z3 import (And, Or, Not, Implies, If, Select, Store, ForAll, Exists, IntVal, BoolVal, Const, Int, Bool)
from vals import *
from interp import *
from eval import *
from prog import strip_targs, Ty

STL={}
def stl(*names):
    def d(f):
        for n in names: STL[n]=f
        return f
    return d
def A(ex,n): return ex.val(ex.ev(n))
def vecv(ex,this):
    lv=ex.this_of(this) if isinstance(this,tuple) else this
    if isinstance(lv,Rec): raise Unsupported('container object')
    return lv,lv.load(ex)
def stdthrow(ex,t): raise CppThrow(t,Opaque('exc'),ex.new_ref())

# ---------------------------------------------------------------- no-effect
@stl('printf','fprintf','puts','fflush','__android_log_print','std::operator<<')
def noeff(ex,n,fn,this,args):
    if fn['n']=='operator<<':
        lv=ex.ev(args[0])
        try: ex.ev(args[1])
        except Unsupported: pass
        if isinstance(lv,LV):
            v=lv.load(ex)
            if z3.is_expr(v) and v.sort()==Str: lv.put(ex,ex.fresh(Str,'stream'))
        return lv
    for a in args:
        try: ex.ev(a)
        except Unsupported: pass
    r=ex.fresh(I,'io'); return r
@stl('abort','std::abort','std::terminate','exit')
def abort_(ex,n,fn,this,args):
    h=ex.cfg.get('on_abort')
    if h: h(ex)
    raise PathEnd()
@stl('std::move','std::forward','std::addressof','std::as_const')
def move_(ex,n,fn,this,args):
    x=ex.ev(args[0])
    if fn['n']=='addressof': return x.ref if isinstance(x,Rec) else PtrTo(x)
    return x
@stl('std::swap','std::exchange')
def swap_(ex,n,fn,this,args):
    a=ex.ev(args[0])
    if fn['n']=='exchange':
        o=a.load(ex); ex.assign(a,A(ex,args[1])); return o
    b=ex.ev(args[1]); x=a.load(ex); y=b.load(ex); a.put(ex,y); b.put(ex,x); return IntVal(0)
@stl('std::min','std::max')
def minmax(ex,n,fn,this,args):
    a=ex.toint(A(ex,args[0])); b=ex.toint(A(ex,args[1])); c=ex.branch(b<a)
    return (b if c else a) if fn['n']=='min' else (a if c else b)
@stl('pthread_self','std::this_thread::get_id','GetCurrentThreadId')
def pself(ex,n,fn,this,args): 
    r=Const('self_thread',I); ex.on_read(r,ex.T(n)) if ex.T(n).k=='int' else None; return r
@stl('std::numeric_limits::max','std::numeric_limits::min')
def nlim(ex,n,fn,this,args):
    lo,hi=ex.int_range(ex.T(n)); return IntVal(hi if fn['n']=='max' else lo)
# ---------------------------------------------------------------- smart pointers
@stl('std::shared_ptr::shared_ptr','std::weak_ptr::weak_ptr','std::unique_ptr::unique_ptr','std::__shared_ptr::__shared_ptr')
def sp_ctor(ex,n,fn,this,args):
    if not args: return IntVal(0)
    pts=[ex.fr.tu.types[t] for t in fn['ptypes']]
    if len(args)>=2:
        o=A(ex,args[0]); p=A(ex,args[1])
        o=o.ref if isinstance(o,Rec) else o; p=p.ref if isinstance(p,Rec) else p
        lam=p if isinstance(p,Lambda) else ex.lambdas.get(p.get_id()) if z3.is_expr(p) else None
        if lam is not None:
            bd=lam.fn.d.get('body') if hasattr(lam.fn,'d') else None
            if bd is None or bd.get('k')!='CompoundStmt' or bd.get('c'): raise Unsupported('shared_ptr with deleter')
            return ex.convert(o,I)          # a deleter that does nothing: no ownership, the pointee keeps its owner
        if ex.sort(pts[1])!=I: raise Unsupported('shared_ptr with deleter')
        p=ex.convert(p,I)
        ex.oblige(Implies(p!=0,o!=0),'ownership','an aliasing shared_ptr shares ownership with a non-empty owner')
        return p
    x=A(ex,args[0])
    if isinstance(x,Rec): x=x.ref
    if isinstance(x,Iter): raise Unsupported('shared_ptr from iterator')
    if not z3.is_expr(x): raise Unsupported('shared_ptr from %s'%type(x).__name__)
    if x.sort()!=I: x=ex.convert(x,I)
    t=ex.T(n)
    # converting copy/move: same referent. a moved-from shared_ptr becomes null
    if pts and pts[0].k=='ref' and pts[0].rv and (fn['qn'].find('shared_ptr')>=0 or fn['qn'].find('unique_ptr')>=0):
        src=ex.ev(args[0])
        if isinstance(src,(StoreLV,HeapLV,ElemLV,MapValLV,StructLV)):
            ex.keep.append(x); src.put(ex,IntVal(0))
    return x
@stl('std::shared_ptr::operator=','std::weak_ptr::operator=','std::unique_ptr::operator=')
def sp_assign(ex,n,fn,this,args):
    src=ex.ev(args[0]); y=ex.val(src); lv=ex.this_of(this)
    if isinstance(y,Rec): y=y.ref
    pts=[ex.fr.tu.types[t] for t in fn['ptypes']]
    if pts and pts[0].k=='ref' and pts[0].rv:
        if isinstance(src,(StoreLV,HeapLV,ElemLV,MapValLV,StructLV)) : src.put(ex,IntVal(0))
    ty=lv.ty if isinstance(lv,LV) else None; old=lv.load(ex) if ty is not None and ex.owns(ty) else None
    ex.assign(lv,y)
    if old is not None: ex.drop(old,ty)
    return lv
@stl('std::unique_ptr::reset')
def up_reset(ex,n,fn,this,args):
    lv=ex.this_of(this); old=lv.load(ex); ex.assign(lv,A(ex,args[0]) if args else IntVal(0)); ex.drop(old,lv.ty); return IntVal(0)
@stl('std::unique_ptr::release')
def up_release(ex,n,fn,this,args):
    lv=ex.this_of(this); old=lv.load(ex); ex.keep.append(old); ex.assign(lv,IntVal(0)); return old
@stl('std::shared_ptr::reset','std::__shared_ptr::reset','std::weak_ptr::reset','std::__weak_ptr::reset')
def sp_reset(ex,n,fn,this,args):
    lv=ex.this_of(this); ex.assign(lv,A(ex,args[0]) if args else IntVal(0)); return IntVal(0)
@stl('std::shared_ptr::swap','std::__shared_ptr::swap','std::vector::swap','std::basic_string::swap')
def sp_swap(ex,n,fn,this,args):
    a=ex.this_of(this); b=ex.ev(args[0]); x=a.load(ex); y=b.load(ex); a.put(ex,y); b.put(ex,x); return IntVal(0)
@stl('std::__shared_ptr::get','std::shared_ptr::get','std::unique_ptr::get')
def sp_get(ex,n,fn,this,args): 
    x=ex.val(ex.this_of(this)); return x.ref if isinstance(x,Rec) else x
@stl('std::__shared_ptr_access::operator->','std::unique_ptr::operator->')
def sp_arrow(ex,n,fn,this,args): return sp_get(ex,n,fn,this,args)
@stl('std::__shared_ptr_access::operator*','std::unique_ptr::operator*')
def sp_deref(ex,n,fn,this,args):
    v=sp_get(ex,n,fn,this,args); return ex.deref(v,ex.T(n))
@stl('std::__shared_ptr::operator bool','std::unique_ptr::operator bool')
def sp_bool(ex,n,fn,this,args): return sp_get(ex,n,fn,this,args)!=0
@stl('std::weak_ptr::lock')
def wp_lock(ex,n,fn,this,args):
    x=ex.val(ex.this_of(this))
    return ex.lock_weak(x)
def lock_weak(ex,x):
    x=z3.simplify(x)
    if ex.is_null(x): return IntVal(0)
    if x.get_id() in ex.exact or x.get_id() in ex.known_alive: return x
    return IntVal(0) if not ex.branch(And(x!=0,alive(x))) else x
Eval.lock_weak=lock_weak
Eval.known_alive=set()
@stl('std::weak_ptr::expired','std::__weak_ptr::expired')
def wp_exp(ex,n,fn,this,args):
    x=ex.val(ex.this_of(this)); return Not(And(x!=0,alive(x)))
@stl('std::enable_shared_from_this::shared_from_this')
def sft(ex,n,fn,this,args):
    x=ex.this_of(this); r=x.ref if isinstance(x,Rec) else x.ref
    ex.trust('shared_from_this: every object reached by a non-null reference is owned by a shared_ptr')
    return r
@stl('std::enable_shared_from_this::weak_from_this')
def wft(ex,n,fn,this,args): return ex.this_of(this).ref
@stl('std::enable_shared_from_this::enable_shared_from_this')
def eft(ex,n,fn,this,args): return IntVal(0)
@stl('std::make_shared','std::make_unique')
def mk_shared(ex,n,fn,this,args):
    rt=ex.T(n); t=rt.args[0]
    k=ex.rk(t) if t.k=='rec' else None
    if k!='obj':
        raise Unsupported('make_shared of %s'%t.s)
    rec=ex.P.recs.get(t.base)
    if rec is None or not rec.get('repo'): raise Unsupported('make_shared of %s'%t.s)
    vals=[ex.ev(a) for a in args]
    return ex.construct(t,vals,[ex.T(a) for a in args])
def construct(ex,t,vals,tys):
    """new object of class t by the constructor matching the argument types"""
    r=ex.new_ref(t.base)
    rec=ex.P.recs[t.base]
    ctors=[f for f in ex.P.fns.values() if f.d.get('ctor') and f.rec() is not None and f.rec().base==t.base and len(f.params())==len(vals)]
    # inherited constructors and copy/default
    if not vals:
        c=[f for f in ctors]
        if c: ex.ctor_body(r,t,c[0],[],top=True)
        else: ex.implicit_default(r,t.base)
        return r
    def ok(f):
        sc=0
        for (pid,pn,pt),at,v in zip(f.params(),tys,vals):
            p=pt.to if pt.k=='ref' else pt; a=at.to if at.k=='ref' else at
            if pt.k=='ref' and not pt.rv and not p.const and False: return None
            if p.base==a.base: sc+=2; continue
            if p.k=='ptr' and a.k=='ptr' and p.to.base==a.to.base: sc+=2; continue
            if p.k=='rec' and a.k=='rec' and p.base in ex.P.bases_of(a.base): sc+=1; continue
            if p.k in('int','bool') and a.k in('int','bool'): sc+=1; continue
            if p.k=='ptr' and a.k in('ptr','nullptr'): sc+=1; continue
            if p.k=='rec' and a.k=='arr' or (p.k=='rec' and ex.rk(p)=='str' and a.k=='ptr') : sc+=1; continue
            return None
        return sc
    best=[(ok(f),f) for f in ctors]; best=[(s,f) for s,f in best if s is not None]
    if best:
        m=max(s for s,f in best); c=[f for s,f in best if s==m]
        # const/rvalue copy constructors are equivalent here: prefer the copying one
        f=c[0]
        if len(c)>1:
            c2=[x for x in c if not (x.params()[0][2].k=='ref' and x.params()[0][2].rv)]
            f=(c2 or c)[0]
            if len(c2)>1: 
                c3=[x for x in c2 if any(p[2].k=='ref' and p[2].to.const for p in x.params())]; f=(c3 or c2)[0]
        args=[]
        for (pid,pn,pt),v in zip(f.params(),vals):
            if pt.k=='ref': args.append(v if isinstance(v,(LV,Rec)) else TmpLV(v,pt.to))
            else:
                x=ex.val(v)
                if z3.is_expr(x):
                    if x.sort()==CSs and ex.sort(pt)==Str: x=ex.cstr(x)
                    elif pt.k=='int': x=ex.wrap(ex.toint(x),pt)
                    else: x=ex.convert(x,ex.sort(pt))
                args.append(x)
        ex.ctor_body(r,t,f,args,top=True); return r
    # inherited constructors from std::string (class String : public std::string { using std::string::string })
    if len(vals)==1:
        v=vals[0]
        if isinstance(v,Rec) and v.ty.base==t.base: ex.copy_obj(r,v.ref,t.base); return r
        for b in rec.get('bases') or []:
            if b['t'].k=='rec' and ex.rk(b['t'])=='str':
                x=ex.val(v)
                if isinstance(x,Rec): raise Unsupported('string from object')
                if x.sort()==CSs: 
                    ex.oblige(Not(CSs.is_null(x)),'null-deref','std::string is not constructed from a null pointer'); x=ex.cstr(x)
                if x.sort()!=Str: raise Unsupported('string from %s'%x.sort())
                ex.implicit_default(r,t.base)
                bt=b['t']; HeapLV('cell.'+bt.base,r,bt,Str).put(ex,x)
                return r
    raise Unsupported('constructor of %s for %s'%(t.base,[x.s for x in tys]))
Eval.construct=construct
@stl('std::dynamic_pointer_cast')
def dpc(ex,n,fn,this,args):
    x=A(ex,args[0]); return ex.dyncast(x,type('T',(),{'to':ex.T(n).args[0]}))
@stl('std::static_pointer_cast','std::const_pointer_cast','std::reinterpret_pointer_cast')
def spc(ex,n,fn,this,args): return A(ex,args[0])
# ---------------------------------------------------------------- strings
def as_str(ex,v):
    if isinstance(v,Rec): raise Unsupported('string object')
    if v.sort()==Str: return v
    if v.sort()==CSs:
        ex.oblige(Not(CSs.is_null(v)),'null-deref','C string is not null'); return ex.cstr(v)
    if v.sort()==Ptr: return ex.cstr(ex.ptr2cs(v))
    if v.sort()==I: return ex.bytes_str([v])
    raise Unsupported('string from %s'%v.sort())
@stl('std::basic_string::basic_string','std::__cxx11::basic_string::basic_string')
def str_ctor(ex,n,fn,this,args):
    # the trailing allocator argument carries no state
    pts=[ex.fr.tu.types[t] for t in fn['ptypes']]
    vals=[]
    for a in args:
        t=ex.T(a); t=t.to if t.k=='ref' else t
        if t.k=='rec' and 'allocator' in (t.tmpl or ''): continue
        vals.append(A(ex,a))
    if not vals: return ex.lit(b'')
    if len(vals)==1:
        v=vals[0]
        if isinstance(v,InitL): return ex.bytes_str(v.vals)
        return as_str(ex,v)
    a=vals[0]
    if isinstance(a,Iter):
        b=vals[1]; v=a.lv.load(ex)
        if v.sort()==Str: return ex.mk_sub(v,a.idx,b.idx-a.idx)
        raise Unsupported('string from iterators')
    if a.sort()==CSs:
        b=vals[1]
        if b.sort()==CSs:  # [first,last)
            ex.oblige(And(CSs.s(a)==CSs.s(b),CSs.o(a)<=CSs.o(b),CSs.o(a)>=0,CSs.o(b)<=slen(CSs.s(a))),'bounds','string range inside one string')
            return ex.mk_sub(z3.simplify(CSs.s(a)),z3.simplify(CSs.o(a)),z3.simplify(CSs.o(b)-CSs.o(a)))
        k=ex.toint(b)
        ex.oblige(And(k>=0,CSs.o(a)>=0,CSs.o(a)+k<=slen(CSs.s(a))),'bounds','string range inside the string')
        return ex.mk_sub(z3.simplify(CSs.s(a)),z3.simplify(CSs.o(a)),z3.simplify(k))
    if a.sort()==Str:
        pos=ex.toint(vals[1]); 
        if not ex.branch(pos<=slen(a)): stdthrow(ex,'std::out_of_range')
        cnt=ex.toint(vals[2]) if len(vals)>2 else slen(a)-pos
        cnt=If(cnt<=slen(a)-pos,cnt,slen(a)-pos)
        return ex.mk_sub(a,pos,z3.simplify(cnt))
    if a.sort()==Ptr and vals[1].sort()==Ptr: 
        return buf_str(ex,a,Ptr.off(vals[1])-Ptr.off(a))
    if a.sort()==Ptr: return buf_str(ex,a,ex.toint(vals[1]))
    raise Unsupported('string constructor')
def buf_str(ex,p,k):
    """string of k bytes of a char buffer"""
    k=z3.simplify(k); p=z3.simplify(p)
    ex.oblige(And(k>=0,Ptr.off(p)>=0,Implies(k>0,Ptr.blk(p)!=0),Implies(k>0,Ptr.off(p)+k<=Select(ex.blksize(),Ptr.blk(p)))),'bounds','buffer read inside the block')
    a=Select(ex.mem('char',I),z3.simplify(Ptr.blk(p))); o=z3.simplify(Ptr.off(p))
    def at(i): return z3.simplify(Select(a,o+i))
    if z3.is_int_value(k) and k.as_long()<=4: return ex.bytes_str([at(i) for i in range(k.as_long())])
    for v in range(0,5):
        if not ex.feasible(k!=v): return ex.bytes_str([at(i) for i in range(v)])
    r=ex.fresh(Str,'mstr'); q=Int('q'); ex.assume(slen(r)==k)
    ex.assume(ForAll([q],Implies(And(q>=0,q<k),sat(r,q)==Select(a,o+q)),patterns=[sat(r,q)])); 
    for v in range(0,5): ex.assume(Implies(k==v,r==(bytestr[v](*[at(i) for i in range(v)]) if v else bytestr[0]())))
    return r
@stl('std::basic_string::operator=','std::basic_string::assign')
def str_assign(ex,n,fn,this,args):
    if len(args)>1: raise Unsupported('string::assign')
    y=as_str(ex,A(ex,args[0])); lv=strlv(ex,ex.this_of(this)); lv.put(ex,y); return lv
def strlv(ex,x):
    if isinstance(x,LV): return x
    if isinstance(x,Rec): 
        raise Unsupported('string object')
    return TmpLV(x,None)
@stl('std::basic_string::data','std::basic_string::c_str')
def str_data(ex,n,fn,this,args):
    lv=ex.this_of(this); v=ex.val(lv); r=CSs.mk(v,IntVal(0))
    ex.on_read(v,type('T',(),{'k':'x'}))
    if ex.T(n).k=='ptr' and not ex.T(n).to.const: raise Unsupported('mutable string data')
    return r
@stl('std::basic_string::length','std::basic_string::size')
def str_len(ex,n,fn,this,args):
    v=ex.val(ex.this_of(this)); r=slen(v); ex.on_read(v,type('T',(),{'k':'x'})); return ex.simp_len(v)
def simp_len(ex,v):
    l=ex.litval(v); return IntVal(len(l)) if l is not None else slen(v)
Eval.simp_len=simp_len
@stl('std::basic_string::empty')
def str_empty(ex,n,fn,this,args): 
    v=ex.val(ex.this_of(this)); ex.on_read(v,type('T',(),{'k':'x'})); ex.assume((slen(v)==0)==(v==ex.lit(b''))); return ex.simp_len(v)==0
@stl('std::basic_string::operator[]','std::basic_string::at')
def str_idx(ex,n,fn,this,args):
    lv=ex.this_of(this); i=ex.toint(A(ex,args[0])); v=ex.val(lv)
    if fn['n']=='at':
        if not ex.branch(And(i>=0,i<slen(v))): stdthrow(ex,'std::out_of_range')
    else: ex.oblige(And(i>=0,i<=ex.simp_len(v)),'bounds','string index inside the string')
    return StrElemLV(lv,i,ex.T(n))
@stl('std::basic_string::front','std::basic_string::back')
def str_front(ex,n,fn,this,args):
    lv=ex.this_of(this); v=ex.val(lv); i=IntVal(0) if fn['n']=='front' else slen(v)-1
    ex.oblige(slen(v)>0,'bounds','string is not empty'); return StrElemLV(lv,i,ex.T(n))
def str_set(ex,v,i,x):
    r=ex.fresh(Str,'sset'); q=Int('q'); ex.assume(slen(r)==slen(v)); ex.assume(ForAll([q],sat(r,q)==If(q==i,x,sat(v,q)),patterns=[sat(r,q)])); return r
Eval.str_set=str_set
@stl('std::operator+')
def str_plus(ex,n,fn,this,args):
    a=as_str(ex,A(ex,args[0])); b=as_str(ex,A(ex,args[1])); return ex.mk_cat(a,b)
@stl('std::basic_string::append','std::basic_string::operator+=','std::basic_string::push_back')
def str_append(ex,n,fn,this,args):
    lv=ex.this_of(this); v=ex.val(lv)
    vals=[A(ex,a) for a in args]
    if len(vals)==1: s=as_str(ex,vals[0])
    elif len(vals)==2 and vals[0].sort()==CSs:
        k=ex.toint(vals[1]); a=vals[0]; ex.oblige(And(k>=0,CSs.o(a)+k<=slen(CSs.s(a))),'bounds','append range inside the string'); s=ex.mk_sub(CSs.s(a),CSs.o(a),k)
    elif len(vals)==2 and vals[0].sort()==Ptr: s=buf_str(ex,vals[0],ex.toint(vals[1]))
    else: raise Unsupported('string append')
    lv.put(ex,ex.mk_cat(v,s)); return lv
@stl('std::basic_string::substr')
def str_substr(ex,n,fn,this,args):
    v=ex.val(ex.this_of(this)); pos=ex.toint(A(ex,args[0])) if args else IntVal(0)
    if not ex.branch(pos<=slen(v)): stdthrow(ex,'std::out_of_range')
    if len(args)>1:
        c=ex.toint(A(ex,args[1])); m=slen(v)-pos; c=If(c<=m,c,m)
    else: c=slen(v)-pos
    return ex.mk_sub(v,z3.simplify(pos),z3.simplify(c))
@stl('std::basic_string::find','std::basic_string::rfind','std::basic_string::find_last_of','std::basic_string::find_first_of')
def str_find(ex,n,fn,this,args):
    v=ex.val(ex.this_of(this)); x=A(ex,args[0]); NP=IntVal((1<<64)-1)
    if x.sort()==CSs:
        l=ex.litval(z3.simplify(CSs.s(x)))
        if l is not None and len(l)==1: x=IntVal(l[0])
        else: raise Unsupported('find of a string')
    if x.sort()==Str:
        l=ex.litval(x)
        if l is not None and len(l)==1: x=IntVal(l[0])
        else: raise Unsupported('find of a string')
    q=Int('q')
    if fn['n'] in('find','find_first_of'):
        p=ex.toint(A(ex,args[1])) if len(args)>1 else IntVal(0)
        r=ex.fresh(I,'find')
        ex.assume(Or(And(r==NP,ForAll([q],Implies(And(q>=p,q<slen(v)),sat(v,q)!=x),patterns=[sat(v,q)])),And(r>=p,r>=0,r<slen(v),sat(v,r)==x,ForAll([q],Implies(And(q>=p,q<r),sat(v,q)!=x),patterns=[sat(v,q)]))))
        ex.assume(Or(r==NP,And(r>=p,r<slen(v))))
        return r
    p=ex.toint(A(ex,args[1])) if len(args)>1 else NP
    r=ex.fresh(I,'rfind')
    ex.assume(Or(And(r==NP,ForAll([q],Implies(And(q>=0,q<slen(v),q<=p),sat(v,q)!=x),patterns=[sat(v,q)])),And(r>=0,r<slen(v),r<=p,sat(v,r)==x,ForAll([q],Implies(And(q>r,q<slen(v),q<=p),sat(v,q)!=x),patterns=[sat(v,q)]))))
    ex.assume(Or(r==NP,And(r>=0,r<slen(v))))
    return r
@stl('std::basic_string::erase')
def str_erase(ex,n,fn,this,args):
    lv=ex.this_of(this); v=ex.val(lv); vals=[A(ex,a) for a in args]
    if any(isinstance(x,Iter) for x in vals): raise Unsupported('string::erase(iterator)')
    p=ex.toint(vals[0]) if vals else IntVal(0)
    if not ex.branch(p<=slen(v)): stdthrow(ex,'std::out_of_range')
    c=ex.toint(vals[1]) if len(vals)>1 else slen(v)-p
    if not ex.branch(c<=slen(v)-p): c=slen(v)-p
    lv.put(ex,ex.mk_cat(ex.mk_sub(v,IntVal(0),p),ex.mk_sub(v,z3.simplify(p+c),z3.simplify(slen(v)-p-c)))); return lv
@stl('std::basic_string::clear')
def str_clear(ex,n,fn,this,args): lv=ex.this_of(this); lv.put(ex,ex.lit(b'')); return IntVal(0)
@stl('std::basic_string::begin','std::basic_string::cbegin')
def str_begin(ex,n,fn,this,args): return Iter(ex.this_of(this),IntVal(0))
@stl('std::basic_string::end','std::basic_string::cend')
def str_end(ex,n,fn,this,args): lv=ex.this_of(this); return Iter(lv,slen(ex.val(lv)))
@stl('std::basic_string::compare')
def str_compare(ex,n,fn,this,args):
    a=ex.val(ex.this_of(this)); v=[A(ex,x) for x in args]
    def sub(s,p,c):
        if not ex.branch(p<=slen(s)): stdthrow(ex,'std::out_of_range')
        if not ex.branch(c<=slen(s)-p): c=slen(s)-p
        return ex.mk_sub(s,p,z3.simplify(c))
    if len(v)>=3: a=sub(a,ex.toint(v[0]),ex.toint(v[1]))
    b=as_str(ex,v[0] if len(v)==1 else v[2])
    if len(v)==5: b=sub(b,ex.toint(v[3]),ex.toint(v[4]))
    elif len(v)==4: b=ex.mk_sub(b,IntVal(0),ex.toint(v[3]))
    r=ex.fresh(I,'cmp'); ex.assume((r==0)==(a==b)); return r
@stl('strcmp')
def strcmp_(ex,n,fn,this,args):
    a=as_str(ex,A(ex,args[0])); b=as_str(ex,A(ex,args[1])); r=ex.fresh(I,'cmp'); ex.assume((r==0)==(a==b)); return r
@stl('strlen')
def strlen_(ex,n,fn,this,args):
    a=as_str(ex,A(ex,args[0])); ex.on_read(a,type('T',(),{'k':'x'})); ex.assume(slen(a)>=0); return ex.simp_len(a)
@stl('strchr','strrchr')
def strchr_(ex,n,fn,this,args):
    cs=A(ex,args[0]); c=ex.toint(A(ex,args[1]))
    ex.oblige(Not(CSs.is_null(cs)),'null-deref','C string is not null')
    ex.cstr(cs); s=CSs.s(cs); o=CSs.o(cs); r=ex.fresh(I,'chr'); q=Int('q')
    found=ex.fresh(B,'found')
    rng=lambda q: And(q>=o,q<slen(s))
    ex.assume(Implies(Not(found),ForAll([q],Implies(rng(q),sat(s,q)!=c),patterns=[sat(s,q)])))
    ex.assume(Implies(found,And(rng(r),sat(s,r)==c)))
    ex.assume(Implies(found,ForAll([q],Implies(And(rng(q),(q<r if fn['n']=='strchr' else q>r)),sat(s,q)!=c),patterns=[sat(s,q)])))
    return CSs.mk(s,r) if ex.branch(found) else CSs.null
@stl('std::operator==','std::operator!=','__gnu_cxx::operator!=','__gnu_cxx::operator==','std::__detail::operator!=','std::__detail::operator==','std::type_index::operator==','std::__exception_ptr::operator==','std::__exception_ptr::operator!=')
def op_eq(ex,n,fn,this,args):
    if this is not None: a=ex.val(ex.this_of(this)); b=A(ex,args[0])
    else: a=A(ex,args[0]); b=A(ex,args[1])
    if z3.is_expr(a) and z3.is_expr(b):
        if a.sort()==Str or b.sort()==Str: a=as_str(ex,a); b=as_str(ex,b)
    r=ex.eq(a,b) if not (z3.is_expr(a) and z3.is_expr(b) and a.sort()==Str) else ex.streq(a,b)
    return r if fn['n']=='operator==' else Not(r)
def streq(ex,a,b):
    la,lb=ex.litval(a),ex.litval(b)
    if la is not None and lb is not None: return BoolVal(la==lb)
    return a==b
Eval.streq=streq
for _n in ('std::operator<','std::operator>'): 
    pass
# ---------------------------------------------------------------- streams
@stl('std::basic_stringstream::basic_stringstream','std::basic_ostringstream::basic_ostringstream')
def ss_ctor(ex,n,fn,this,args):
    if args and ex.T(args[0]).k!='int': raise Unsupported('stringstream with initial content')
    return ex.lit(b'')
@stl('std::basic_ostream::write')
def ss_write(ex,n,fn,this,args):
    lv=ex.this_of(this); p=A(ex,args[0]); k=ex.toint(A(ex,args[1]))
    if p.sort()==CSs:
        ex.oblige(And(k>=0,CSs.o(p)+k<=slen(CSs.s(p))),'bounds','write range inside the string'); s=ex.mk_sub(CSs.s(p),CSs.o(p),k)
    else: s=buf_str(ex,p,k)
    lv.put(ex,ex.mk_cat(lv.load(ex),s)); return lv
@stl('std::basic_ostream::put')
def ss_put(ex,n,fn,this,args):
    lv=ex.this_of(this); lv.put(ex,ex.mk_cat(lv.load(ex),ex.bytes_str([A(ex,args[0])]))); return lv
@stl('std::basic_stringstream::str','std::basic_ostringstream::str')
def ss_str(ex,n,fn,this,args): return ex.val(ex.this_of(this))
# ---------------------------------------------------------------- vectors and lists
@stl('std::vector::vector','std::forward_list::forward_list','std::initializer_list::initializer_list')
def vec_ctor(ex,n,fn,this,args):
    ty=ex.T(n); so=ex.sort(ty)
    vals=[]
    for a in args:
        t=ex.T(a); t=t.to if t.k=='ref' else t
        if t.k=='rec' and 'allocator' in (t.tmpl or ''): continue
        vals.append(A(ex,a))
    if not vals: return ex.default(ty)
    v=vals[0]
    if isinstance(v,InitL):
        a=z3.K(I,ex.zero(so.elem))
        vs=v.vals
        if strip_targs(ty.tmpl or '')=='std::forward_list': vs=list(reversed(vs))
        for i,x in enumerate(vs): a=Store(a,IntVal(i),ex.convert(x.ref if isinstance(x,Rec) else x,so.elem))
        return so.mkv(IntVal(len(vs)),a)
    if z3.is_expr(v) and v.sort()==so: 
        pts=[ex.fr.tu.types[t] for t in fn['ptypes']]
        if pts and pts[0].k=='ref' and pts[0].rv:
            src=ex.ev(args[0])
            if isinstance(src,(StoreLV,HeapLV)): src.put(ex,ex.default(ty))
        return v
    if z3.is_expr(v) and v.sort()==I:
        x=ex.convert(vals[1],so.elem) if len(vals)>1 else ex.zero(so.elem)
        if not ex.branch(v>=0): stdthrow(ex,'std::length_error')
        return so.mkv(v,z3.K(I,x))
    if isinstance(v,Iter):
        src=v.lv.load(ex); b=vals[1]; q=Int('q'); r=ex.fresh(so,'vec')
        if not src.sort()==so: raise Unsupported('vector from range')
        ex.assume(so.len(r)==b.idx-v.idx); ex.assume(ForAll([q],Select(so.arr(r),q)==Select(so.arr(src),q+v.idx))); return r
    raise Unsupported('vector constructor')
@stl('std::vector::operator=','std::forward_list::operator=','std::unordered_map::operator=')
def vec_assign(ex,n,fn,this,args):
    src=ex.ev(args[0]); v=ex.val(src); lv=ex.this_of(this); 
    pts=[ex.fr.tu.types[t] for t in fn['ptypes']]
    if pts and pts[0].k=='ref' and pts[0].rv:
        if isinstance(src,(StoreLV,HeapLV)): src.put(ex,ex.default(src.ty))
    if isinstance(v,InitL): raise Unsupported('vector = {..}')
    lv.put(ex,v); return lv
@stl('std::vector::size')
def vec_size(ex,n,fn,this,args): lv,v=vecv(ex,this); ex.on_read(v,lv.ty if lv.ty.k!='ref' else lv.ty.to); return z3.simplify(v.sort().len(v))
@stl('std::vector::empty','std::forward_list::empty')
def vec_empty(ex,n,fn,this,args): lv,v=vecv(ex,this); ex.on_read(v,lv.ty if lv.ty.k!='ref' else lv.ty.to); return z3.simplify(v.sort().len(v))==0
@stl('std::vector::begin','std::vector::cbegin','std::begin','std::unordered_multimap::begin','std::unordered_multimap::cbegin','std::multimap::begin')
def vec_begin(ex,n,fn,this,args): 
    lv=ex.this_of(this) if this else ex.ev(args[0]); return Iter(lv,IntVal(0))
@stl('std::vector::end','std::vector::cend','std::end','std::unordered_multimap::end','std::unordered_multimap::cend','std::multimap::end')
def vec_end(ex,n,fn,this,args): 
    lv=ex.this_of(this) if this else ex.ev(args[0]); v=lv.load(ex); ex.on_read(v,lv.ty if lv.ty.k!='ref' else lv.ty.to); return Iter(lv,z3.simplify(v.sort().len(v)))
@stl('std::forward_list::begin','std::forward_list::cbegin')
def fl_begin(ex,n,fn,this,args): return Iter(ex.this_of(this),IntVal(0),True)
@stl('std::forward_list::end','std::forward_list::cend')
def fl_end(ex,n,fn,this,args): lv=ex.this_of(this); v=lv.load(ex); return Iter(lv,v.sort().len(v),True)
@stl('std::forward_list::before_begin','std::forward_list::cbefore_begin')
def fl_bb(ex,n,fn,this,args): return Iter(ex.this_of(this),IntVal(-1),True)
@stl('std::forward_list::front')
def fl_front(ex,n,fn,this,args):
    lv,v=vecv(ex,this); so=v.sort(); ex.on_read(v,lv.ty if lv.ty.k!='ref' else lv.ty.to)
    ex.oblige(so.len(v)>0,'bounds','front() of a non-empty list'); return ElemLV(lv,z3.simplify(so.len(v)-1),ex.elemty(lv.ty))
@stl('std::forward_list::emplace_front','std::forward_list::push_front')
def fl_ef(ex,n,fn,this,args):
    lv,v=vecv(ex,this); so=v.sort(); x=A(ex,args[0]) if args else ex.default(ex.elemty(lv.ty))
    lv.put(ex,so.mkv(z3.simplify(so.len(v)+1),Store(so.arr(v),so.len(v),x))); 
    return ElemLV(lv,so.len(v),ex.elemty(lv.ty))
@stl('std::forward_list::pop_front')
def fl_pf(ex,n,fn,this,args):
    lv,v=vecv(ex,this); so=v.sort(); ex.oblige(so.len(v)>0,'bounds','pop_front of a non-empty list'); lv.put(ex,so.mkv(z3.simplify(so.len(v)-1),so.arr(v))); return IntVal(0)
@stl('std::forward_list::splice_after')
def fl_splice(ex,n,fn,this,args):
    lv,v=vecv(ex,this); pos=A(ex,args[0]); olv=ex.ev(args[1])
    if len(args)!=3: raise Unsupported('splice_after')
    it=A(ex,args[2])
    for q in(pos,it):
        if not(isinstance(q,Iter) and z3.is_int_value(z3.simplify(q.idx)) and z3.simplify(q.idx).as_long()==-1): raise Unsupported('splice_after inside the list')
    o=olv.load(ex); so=o.sort(); ex.on_read(o,olv.ty if olv.ty.k!='ref' else olv.ty.to)
    ex.oblige(so.len(o)>0,'bounds','splice_after moves an existing element')
    x=Select(so.arr(o),so.len(o)-1)
    lv.put(ex,so.mkv(z3.simplify(so.len(v)+1),Store(so.arr(v),so.len(v),x)))
    o=olv.load(ex); olv.put(ex,so.mkv(z3.simplify(so.len(o)-1),so.arr(o))); return IntVal(0)
@stl('std::vector::operator[]','std::vector::at')
def vec_idx(ex,n,fn,this,args):
    lv,v=vecv(ex,this); so=v.sort(); i=ex.toint(A(ex,args[0])); ex.on_read(v,lv.ty if lv.ty.k!='ref' else lv.ty.to)
    if fn['n']=='at':
        if not ex.branch(And(i>=0,i<so.len(v))): stdthrow(ex,'std::out_of_range')
    ex.oblige(And(i>=0,i<so.len(v)),'bounds','vector index inside the vector')
    return ElemLV(lv,z3.simplify(i),ex.elemty(lv.ty))
@stl('std::vector::back','std::vector::front')
def vec_back(ex,n,fn,this,args):
    lv,v=vecv(ex,this); so=v.sort(); ex.on_read(v,lv.ty if lv.ty.k!='ref' else lv.ty.to)
    ex.oblige(so.len(v)>0,'bounds','back()/front() of a non-empty vector')
    return ElemLV(lv,z3.simplify(so.len(v)-1) if fn['n']=='back' else IntVal(0),ex.elemty(lv.ty))
@stl('std::vector::push_back','std::vector::emplace_back')
def vec_push(ex,n,fn,this,args):
    et=None
    lv,v=vecv(ex,this); et=ex.elemty(lv.ty); so=v.sort()
    if len(args)==1:
        a0=ex.ev(args[0]); x=ex.val(a0)
        if isinstance(x,Rec): x=x.ref
        if isinstance(x,(Lambda,)): x=ex.lam_token(x)
        if isinstance(x,FnPtr): x=ex.fnid(x)
        if not z3.is_expr(x): raise Unsupported('push_back of %s'%type(x).__name__)
        if so.elem==Str and x.sort()==CSs: x=ex.cstr(x)
        x=ex.convert(x,so.elem)
        pts=[ex.fr.tu.types[t] for t in fn['ptypes']]
        if pts and pts[0].k=='ref' and pts[0].rv and isinstance(a0,(StoreLV,HeapLV)) and ex.T(args[0]).k=='rec': a0.put(ex,ex.default(ex.T(args[0])))
        v=lv.load(ex)
    elif not args: x=ex.default(et)
    else:
        if et.k=='rec' and ex.rk(et)=='struct': x=so.elem.mks(*[ex.convert(A(ex,a),so.elem.accessor(0,i).range()) for i,a in enumerate(args)])
        else: raise Unsupported('emplace_back')
    ex.on_read(v,lv.ty if lv.ty.k!='ref' else lv.ty.to)
    lv.put(ex,so.mkv(z3.simplify(so.len(v)+1),Store(so.arr(v),z3.simplify(so.len(v)),x))); 
    return ElemLV(lv,so.len(v),et)
@stl('std::vector::pop_back')
def vec_pop(ex,n,fn,this,args):
    lv,v=vecv(ex,this); so=v.sort(); ex.oblige(so.len(v)>0,'bounds','pop_back of a non-empty vector'); lv.put(ex,so.mkv(z3.simplify(so.len(v)-1),so.arr(v))); return IntVal(0)
@stl('std::vector::clear','std::forward_list::clear')
def vec_clear(ex,n,fn,this,args): lv,v=vecv(ex,this); so=v.sort(); lv.put(ex,so.mkv(IntVal(0),so.arr(v))); return IntVal(0)
@stl('std::vector::reserve','std::vector::shrink_to_fit')
def vec_reserve(ex,n,fn,this,args):
    lv,v=vecv(ex,this)
    if args:
        k=ex.toint(A(ex,args[0]))
        if not ex.branch(And(k>=0,k<=(1<<60))): stdthrow(ex,'std::length_error')
    return IntVal(0)
@stl('std::vector::resize')
def vec_resize(ex,n,fn,this,args):
    lv,v=vecv(ex,this); so=v.sort(); k=ex.toint(A(ex,args[0])); q=Int('q'); r=ex.fresh(so,'rs'); z=ex.zero(so.elem)
    ex.assume(so.len(r)==k); ex.assume(ForAll([q],Select(so.arr(r),q)==If(And(q>=0,q<so.len(v)),Select(so.arr(v),q),z))); lv.put(ex,r); return IntVal(0)
@stl('std::vector::erase')
def vec_erase(ex,n,fn,this,args):
    lv,v=vecv(ex,this); so=v.sort(); it=A(ex,args[0]); q=Int('q')
    if len(args)>1:
        e=A(ex,args[1]); ex.oblige(And(it.idx>=0,it.idx<=e.idx,e.idx<=so.len(v)),'bounds','erase of a valid range')
        r=ex.fresh(so,'er'); d=e.idx-it.idx
        ex.assume(so.len(r)==so.len(v)-d); ex.assume(ForAll([q],Select(so.arr(r),q)==If(q<it.idx,Select(so.arr(v),q),Select(so.arr(v),q+d)),patterns=[Select(so.arr(r),q)])); lv.put(ex,r); return it
    ex.on_read(v,lv.ty if lv.ty.k!='ref' else lv.ty.to)
    ex.oblige(And(it.idx>=0,it.idx<so.len(v)),'bounds','erase of a valid iterator')
    a=ex.fresh(z3.ArraySort(I,so.elem),'er')
    ex.assume(ForAll([q],Select(a,q)==If(q<it.idx,Select(so.arr(v),q),Select(so.arr(v),q+1)),patterns=[Select(a,q)]))
    lv.put(ex,so.mkv(z3.simplify(so.len(v)-1),a)); return Iter(lv,it.idx)
@stl('std::vector::insert')
def vec_insert(ex,n,fn,this,args):
    if len(args)!=2: raise Unsupported('vector::insert')
    lv,v=vecv(ex,this); so=v.sort(); it=A(ex,args[0]); x=ex.convert(A(ex,args[1]),so.elem); q=Int('q')
    ex.oblige(And(it.idx>=0,it.idx<=so.len(v)),'bounds','insert at a valid iterator')
    a=ex.fresh(z3.ArraySort(I,so.elem),'ins')
    ex.assume(ForAll([q],Select(a,q)==If(q<it.idx,Select(so.arr(v),q),If(q==it.idx,x,Select(so.arr(v),q-1))),patterns=[Select(a,q)]))
    lv.put(ex,so.mkv(z3.simplify(so.len(v)+1),a)); return Iter(lv,it.idx)
@stl('std::vector::data')
def vec_data(ex,n,fn,this,args):
    lv,v=vecv(ex,this); so=v.sort()
    # snapshot of the elements in a block of its own (the vector is not resized while the pointer is used)
    b=ex.new_block(z3.simplify(so.len(v))); t=ex.T(n).to; mk=ex.memkey(t)
    ex.store[('M',mk)]=Store(ex.mem(mk,so.elem),b,so.arr(v)); ex.touched('mem.'+mk,b)
    ex.trust('vector::data(): the elements are read through the returned pointer before the vector changes')
    return If(so.len(v)==0,Ptr.mkp(b,IntVal(0)),Ptr.mkp(b,IntVal(0)))
@stl('__gnu_cxx::__normal_iterator::__normal_iterator','std::_Fwd_list_const_iterator::_Fwd_list_const_iterator','std::_Fwd_list_iterator::_Fwd_list_iterator','std::__detail::_Node_iterator::_Node_iterator','std::__detail::_Node_const_iterator::_Node_const_iterator')
def it_copy(ex,n,fn,this,args): return A(ex,args[0])
@stl('__gnu_cxx::__normal_iterator::operator=','std::_Fwd_list_iterator::operator=','std::__detail::_Node_iterator::operator=')
def it_assign(ex,n,fn,this,args):
    lv=ex.this_of(this); lv.put(ex,A(ex,args[0])); return lv
@stl('__gnu_cxx::__normal_iterator::operator*','std::_Fwd_list_iterator::operator*','std::_Fwd_list_const_iterator::operator*','__gnu_cxx::__normal_iterator::operator[]')
def it_deref(ex,n,fn,this,args):
    it=ex.val(ex.this_of(this))
    if args: it=Iter(it.lv,it.idx+ex.toint(A(ex,args[0])),it.rev)
    return ex.elem(it)
@stl('__gnu_cxx::__normal_iterator::operator->','std::_Fwd_list_iterator::operator->','std::_Fwd_list_const_iterator::operator->')
def it_arrow(ex,n,fn,this,args): return PtrTo(ex.elem(ex.val(ex.this_of(this))))
@stl('__gnu_cxx::__normal_iterator::operator+','__gnu_cxx::__normal_iterator::operator-','__gnu_cxx::operator-','std::next','std::prev')
def it_add(ex,n,fn,this,args):
    if this is None:
        a=A(ex,args[0])
        if fn['n'] in('next','prev'):
            k=ex.toint(A(ex,args[1])) if len(args)>1 else IntVal(1); return Iter(a.lv,a.idx+(k if fn['n']=='next' else -k),a.rev)
        b=A(ex,args[1]); return a.idx-b.idx
    a=ex.val(ex.this_of(this)); k=A(ex,args[0])
    if isinstance(k,Iter): return a.idx-k.idx
    k=ex.toint(k)
    # the index is a size_t/ptrdiff_t: the pointer arithmetic is modulo 2^64 of the (small) mathematical index
    return Iter(a.lv,z3.simplify(a.idx+(k if fn['n']=='operator+' else -k)),a.rev)
@stl('std::__detail::_Node_iterator::operator++','std::__detail::_Node_const_iterator::operator++','__gnu_cxx::__normal_iterator::operator++','std::_Fwd_list_iterator::operator++','std::_Fwd_list_const_iterator::operator++','__gnu_cxx::__normal_iterator::operator--')
def it_inc(ex,n,fn,this,args):
    lv=ex.this_of(this); it=ex.val(lv)
    if not isinstance(it,Iter): raise Unsupported('iteration over a hash table')
    d=1 if fn['n']=='operator++' else -1
    lv.put(ex,Iter(it.lv,z3.simplify(it.idx+d),it.rev)); return it if args else lv
@stl('__gnu_cxx::__normal_iterator::operator+=','__gnu_cxx::__normal_iterator::operator-=')
def it_pe(ex,n,fn,this,args):
    lv=ex.this_of(this); it=ex.val(lv); k=ex.toint(A(ex,args[0])); lv.put(ex,Iter(it.lv,z3.simplify(it.idx+(k if fn['n']=='operator+=' else -k)),it.rev)); return lv
def strip_set(t):
    t=t.to if t.k=='ref' else t
    return t if strip_targs(t.tmpl or t.base) in SET_RECS else None
@stl('std::__detail::_Node_iterator::operator->','std::__detail::_Node_const_iterator::operator->')
def mit_arrow(ex,n,fn,this,args):
    it=ex.val(ex.this_of(this))
    if isinstance(it,Iter): return PtrTo(ex.elem(it))
    ex.oblige(Not(it.end),'bounds','map iterator is not end()')
    if isinstance(strip_set(it.lv.ty),Ty): return PtrTo(TmpLV(it.key,strip_set(it.lv.ty).args[0]))
    return PtrTo(PyPair(ex,it.lv,it.key,it.lv.ty if it.lv.ty.k!='ref' else it.lv.ty.to))
@stl('std::__detail::_Node_iterator::operator*','std::__detail::_Node_const_iterator::operator*')
def mit_deref(ex,n,fn,this,args): return mit_arrow(ex,n,fn,this,args).lv
# ---------------------------------------------------------------- maps
def conv_key(ex,v,so):
    if isinstance(v,Rec): v=v.ref
    if so.kk==Str and v.sort()!=Str: v=as_str(ex,v)
    return ex.convert(v,so.kk)
@stl('std::unordered_set::find','std::set::find','std::unordered_map::find','std::map::find')
def map_find(ex,n,fn,this,args):
    lv,v=vecv(ex,this); so=v.sort(); k=conv_key(ex,A(ex,args[0]),so); return MapIter(lv,k,z3.simplify(Not(Select(so.dom(v),k))))
@stl('std::unordered_set::count','std::set::count','std::unordered_map::count','std::map::count')
def map_count(ex,n,fn,this,args):
    lv,v=vecv(ex,this); so=v.sort(); k=conv_key(ex,A(ex,args[0]),so); return If(Select(so.dom(v),k),IntVal(1),IntVal(0))
@stl('std::unordered_set::end','std::set::end','std::unordered_map::end','std::map::end','std::unordered_map::cend')
def map_end(ex,n,fn,this,args):
    lv,v=vecv(ex,this); so=v.sort(); return MapIter(lv,ex.zero(so.kk),BoolVal(True))
@stl('std::unordered_map::operator[]','std::map::operator[]')
def map_idx(ex,n,fn,this,args):
    k0=A(ex,args[0]); lv,v=vecv(ex,this); so=v.sort(); k=conv_key(ex,k0,so)
    t=lv.ty if lv.ty.k!='ref' else lv.ty.to
    nv=If(Select(so.dom(v),k),v,so.mkm(Store(so.dom(v),k,BoolVal(True)),Store(so.val(v),k,ex.zero(so.vv))))
    if ex.branch(Select(so.dom(v),k)): pass
    else: lv.put(ex,so.mkm(Store(so.dom(v),k,BoolVal(True)),Store(so.val(v),k,ex.default(t.args[1]))))
    return MapValLV(lv,k,t.args[1])
@stl('std::unordered_map::at','std::map::at')
def map_at(ex,n,fn,this,args):
    lv,v=vecv(ex,this); so=v.sort(); k=conv_key(ex,A(ex,args[0]),so)
    if not ex.branch(Select(so.dom(v),k)): stdthrow(ex,'std::out_of_range')
    t=lv.ty if lv.ty.k!='ref' else lv.ty.to; return MapValLV(lv,k,t.args[1])
@stl('std::unordered_set::erase','std::set::erase','std::unordered_map::erase','std::map::erase')
def map_erase(ex,n,fn,this,args):
    lv,v=vecv(ex,this); so=v.sort(); x=A(ex,args[0])
    if isinstance(x,MapIter):
        ex.oblige(Not(x.end),'bounds','erase of a valid map iterator'); k=x.key
    else: k=conv_key(ex,x,so)
    t=lv.ty if lv.ty.k!='ref' else lv.ty.to
    lv.put(ex,so.mkm(Store(so.dom(v),k,BoolVal(False)),so.val(v)))
    if len(t.args)>1 and ex.owns(t.args[1]) and ex.branch(Select(so.dom(v),k)): ex.drop(Select(so.val(v),k),t.args[1])
    return ex.fresh(I,'erased') if not isinstance(x,MapIter) else MapIter(lv,ex.fresh(so.kk,'nx'),ex.fresh(B,'nxe'))
@stl('std::unordered_set::clear','std::set::clear','std::unordered_map::clear','std::map::clear')
def map_clear(ex,n,fn,this,args): lv,v=vecv(ex,this); t=lv.ty if lv.ty.k!='ref' else lv.ty.to; lv.put(ex,ex.default(t)); ex.drop_all(v,t); return IntVal(0)
@stl('std::unordered_set::empty','std::set::empty','std::unordered_map::empty')
def map_empty(ex,n,fn,this,args):
    lv,v=vecv(ex,this); so=v.sort(); r=ex.fresh(B,'mempty'); q=Const('q',so.kk); ex.assume(r==ForAll([q],Not(Select(so.dom(v),q)))); return r
@stl('std::unordered_set::size','std::set::size','std::unordered_map::size','std::map::size')
def map_size(ex,n,fn,this,args):
    lv,v=vecv(ex,this); so=v.sort(); r=ex.fresh(I,'msize'); q=Const('q',so.kk); ex.assume(r>=0); ex.assume((r==0)==ForAll([q],Not(Select(so.dom(v),q)))); return r
@stl('std::unordered_map::unordered_map','std::map::map')
def map_ctor(ex,n,fn,this,args):
    ty=ex.T(n)
    if not args or fn.get('default'): return ex.default(ty)
    x=A(ex,args[0])
    if z3.is_expr(x) and x.sort()==ex.sort(ty): return x
    raise Unsupported('map constructor')
@stl('std::unordered_set::insert','std::unordered_set::emplace','std::set::insert','std::set::emplace')
def set_insert(ex,n,fn,this,args):
    if len(args)!=1: raise Unsupported('set insert')
    lv,v=vecv(ex,this); so=v.sort(); k=conv_key(ex,A(ex,args[0]),so); lv.put(ex,so.mkm(Store(so.dom(v),k,BoolVal(True)),so.val(v))); return Opaque('insert result')
@stl('std::unordered_multimap::insert','std::unordered_multimap::emplace','std::multimap::insert','std::multimap::emplace')
def mmap_insert(ex,n,fn,this,args):
    """the order of the elements is unspecified: the new one counts as the last"""
    lv,v=vecv(ex,this); so=v.sort()
    if len(args)==1:
        p=A(ex,args[0])
        if not(z3.is_expr(p) and p.sort().kind()==z3.Z3_DATATYPE_SORT): raise Unsupported('map insert')
        x=so.elem.mks(*[ex.convert(p.sort().accessor(0,i)(p),so.elem.accessor(0,i).range()) for i in range(2)])
    else: x=so.elem.mks(conv_key2(ex,A(ex,args[0]),so.elem.accessor(0,0).range()),ex.convert(A(ex,args[1]),so.elem.accessor(0,1).range()))
    ex.on_read(v,lv.ty if lv.ty.k!='ref' else lv.ty.to); lv.put(ex,so.mkv(z3.simplify(so.len(v)+1),Store(so.arr(v),z3.simplify(so.len(v)),x))); return Opaque('insert result')
def conv_key2(ex,v,k):
    if isinstance(v,Rec): v=v.ref
    return ex.convert(as_str(ex,v) if k==Str and v.sort()!=Str else v,k)
@stl('std::unordered_map::insert','std::unordered_map::emplace','std::map::insert','std::map::emplace')
def map_insert(ex,n,fn,this,args):
    lv,v=vecv(ex,this); so=v.sort()
    if len(args)==1:
        p=A(ex,args[0])
        if not(z3.is_expr(p) and p.sort().kind()==z3.Z3_DATATYPE_SORT): raise Unsupported('map insert')
        ps=p.sort(); k=ps.accessor(0,0)(p); x=ps.accessor(0,1)(p)
    else: k=conv_key(ex,A(ex,args[0]),so); x=ex.convert(A(ex,args[1]),so.vv)
    k=conv_key(ex,k,so)
    if ex.branch(Select(so.dom(v),k)):
        t=lv.ty if lv.ty.k!='ref' else lv.ty.to
        if len(t.args)>1: ex.drop(x,t.args[1])     # the element that was not inserted is destroyed
        return Opaque('insert result')
    lv.put(ex,so.mkm(Store(so.dom(v),k,BoolVal(True)),Store(so.val(v),k,x))); return Opaque('insert result')
@stl('std::pair::pair','std::make_pair')
def pair_ctor(ex,n,fn,this,args):
    so=ex.sort(ex.T(n))
    if len(args)==1: 
        v=A(ex,args[0])
        if v.sort()==so: return v
        return so.mks(*[ex.convert(v.sort().accessor(0,i)(v),so.accessor(0,i).range()) for i in range(2)])
    if not args: return ex.zero(so)
    vs=[]
    for i,a in enumerate(args):
        v=A(ex,a); t=so.accessor(0,i).range()
        if t==Str: v=as_str(ex,v)
        if isinstance(v,(Lambda)): v=ex.lam_token(v)
        vs.append(ex.convert(v,t))
    return so.mks(*vs)
# ---------------------------------------------------------------- algorithms
def range_of(ex,args):
    b=A(ex,args[0]); e=A(ex,args[1])
    if not isinstance(b,Iter): raise Unsupported('algorithm over %s'%type(b).__name__)
    v=b.lv.load(ex); ex.on_read(v,b.lv.ty if b.lv.ty.k!='ref' else b.lv.ty.to)
    if v.sort()!=Str: ex.oblige(And(b.idx>=0,b.idx<=e.idx,e.idx<=v.sort().len(v)),'bounds','algorithm range inside the container')
    return b,e,v
def pred_formula(ex,lam,et,elem):
    """formula of a side-effect free predicate applied to elem"""
    if not isinstance(lam,Lambda): raise Unsupported('predicate is not a lambda')
    t=TmpLV(elem,et)
    res=ex.summarize(lambda: ex.truth(ex.val(ex.invoke_lambda(lam,[t]))),'predicate')
    return z3.simplify(Or(*[And(c,v) for c,v in res]))
def elem_at(ex,b,v,i):
    so=v.sort()
    if b.rev: return Select(so.arr(v),so.len(v)-1-i)
    return Select(so.arr(v),i)
def find_generic(ex,b,e,v,P):
    """first index in [b,e) whose element satisfies P, else e"""
    r=ex.fresh(I,'find'); q=Int('q'); so=v.sort()
    if not z3.is_const(v): x=ex.fresh(so,'range'); ex.assume(x==v); v=x
    ex.assume(And(r>=b.idx,r<=e.idx))
    ex.assume(Implies(r<e.idx,P(elem_at(ex,b,v,r))))
    ex.assume(ForAll([q],Implies(And(q>=b.idx,q<r),Not(P(elem_at(ex,b,v,q)))),patterns=[elem_at(ex,b,v,q)] if not b.rev else []))
    return Iter(b.lv,r,b.rev)
def find_cs(ex,b,e,c):
    S_=z3.simplify
    s=S_(CSs.s(b)); ob=S_(CSs.o(b)); oe=S_(CSs.o(e))
    ex.oblige(And(Not(CSs.is_null(b)),Not(CSs.is_null(e)),CSs.s(e)==s,ob<=oe,ob>=0,oe<=slen(s)),'bounds','algorithm range inside one string')
    r=ex.fresh(I,'find'); q=Int('q')
    ex.assume(And(r>=ob,r<=oe)); ex.assume(Implies(r<oe,sat(s,r)==c))
    ex.assume(ForAll([q],Implies(And(q>=ob,q<r),sat(s,q)!=c),patterns=[sat(s,q)]))
    return CSs.mk(s,r)
@stl('std::find')
def find_(ex,n,fn,this,args):
    b0=A(ex,args[0])
    if z3.is_expr(b0) and b0.sort()==CSs: return find_cs(ex,b0,A(ex,args[1]),ex.toint(A(ex,args[2])))
    b,e,v=range_of(ex,args); x=A(ex,args[2]); x=x.ref if isinstance(x,Rec) else x
    if v.sort().elem==Str: x=as_str(ex,x)
    x=ex.convert(x,v.sort().elem)
    return find_generic(ex,b,e,v,lambda y: y==x)
def lam_arg(ex,a):
    x=ex.val(ex.ev(a))
    if isinstance(x,Lambda): return x
    if z3.is_expr(x) and x.get_id() in ex.lambdas: return ex.lambdas[x.get_id()]
    raise Unsupported('callable argument')
def mkpred(ex,b,v,lam):
    et=ex.elemty(b.lv.ty); el=ex.fresh(v.sort().elem,'el')
    # facts every element satisfies
    h=ex.cfg.get('elem_fact')
    q=Int('q')
    facts=[]
    if h:
        f=h(ex,et,el)
        if f is not None: facts.append(f)
    ex.on_read(el,et)
    # el stands for an arbitrary element of the container
    i=ex.fresh(I,'eli'); ex.assume(Implies(And(i>=0,i<v.sort().len(v)),el==Select(v.sort().arr(v),i)))
    n0=len(ex.pc)
    for f in facts: ex.assume(f)
    F=pred_formula(ex,lam,et,el)
    return lambda y: z3.substitute(F,(el,y))
@stl('std::find_if')
def find_if_(ex,n,fn,this,args):
    b,e,v=range_of(ex,args); lam=lam_arg(ex,args[2]); P=mkpred(ex,b,v,lam)
    return find_generic(ex,b,e,v,P)
@stl('std::find_if_not')
def find_ifn_(ex,n,fn,this,args):
    b,e,v=range_of(ex,args); lam=lam_arg(ex,args[2]); P=mkpred(ex,b,v,lam)
    return find_generic(ex,b,e,v,lambda y: Not(P(y)))
@stl('std::any_of','std::none_of','std::all_of')
def any_of_(ex,n,fn,this,args):
    b,e,v=range_of(ex,args); lam=lam_arg(ex,args[2]); P=mkpred(ex,b,v,lam)
    if fn['n']=='all_of': it=find_generic(ex,b,e,v,lambda y: Not(P(y))); return it.idx==e.idx
    it=find_generic(ex,b,e,v,P); return it.idx!=e.idx if fn['n']=='any_of' else it.idx==e.idx
# ---------------------------------------------------------------- functions, exceptions, locks
@stl('std::function::function')
def fn_ctor(ex,n,fn,this,args):
    if not args: return IntVal(0)
    x=A(ex,args[0])
    if isinstance(x,Lambda): return ex.lam_token(x)
    if isinstance(x,FnPtr): return ex.fnid(x)
    if z3.is_expr(x): 
        if x.sort()!=I: raise Unsupported('function from %s'%x.sort())
        return x
    raise Unsupported('std::function from %s'%type(x).__name__)
@stl('std::function::operator=')
def fn_assign(ex,n,fn,this,args):
    v=fn_ctor(ex,n,fn,None,args); lv=ex.this_of(this); ex.assign(lv,v); return lv
@stl('std::function::operator bool')
def fn_bool(ex,n,fn,this,args): return ex.val(ex.this_of(this))!=0
@stl('std::function::operator()')
def fn_call(ex,n,fn,this,args):
    lv=ex.this_of(this); f=ex.val(lv)
    if isinstance(f,Lambda): return ex.invoke_lambda(f,ex.bind_args(fn,args,n))
    if z3.is_expr(f) and f.get_id() in ex.lambdas: return ex.invoke_lambda(ex.lambdas[f.get_id()],ex.bind_args(fn,args,n))
    h=ex.cfg.get('stdfunction')
    if h is None: raise Unsupported('call of an unknown std::function')
    if not ex.branch(f!=0): stdthrow(ex,'std::bad_function_call')
    return h(ex,n,fn,f,lv,[ex.ev(a) for a in args])
@stl('std::runtime_error::runtime_error','std::invalid_argument::invalid_argument','std::logic_error::logic_error','std::out_of_range::out_of_range','std::exception::exception','std::bad_alloc::bad_alloc')
def exc_ctor(ex,n,fn,this,args):
    vals=[]
    for a in args:
        try: vals.append(A(ex,a))
        except Unsupported: vals.append(None)
    if vals and z3.is_expr(vals[0]) and vals[0].sort()==CSs: ex.oblige(Not(CSs.is_null(vals[0])),'null-deref','exception message is not a null pointer')
    o=Opaque('exc'); o.args=vals; return o
@stl('std::current_exception')
def cur_exc(ex,n,fn,this,args):
    if not ex.cur_exc: return IntVal(0)
    return ex.cur_exc[-1].ref
@stl('std::make_exception_ptr')
def mk_exc(ex,n,fn,this,args):
    try: v=ex.ev(args[0])
    except Unsupported: v=Opaque('exc')
    r=ex.new_ref(); ex.excvals=getattr(ex,'excvals',{}); ex.excvals[r.get_id()]=(r,v); return r
@stl('std::rethrow_exception')
def rethrow(ex,n,fn,this,args):
    p=A(ex,args[0]); p=p.ref if isinstance(p,Rec) else p
    ex.oblige(p!=0,'null-deref','rethrow_exception of a null exception_ptr')
    raise CppThrow(None,None,p)
@stl('std::__exception_ptr::exception_ptr::exception_ptr')
def ep_ctor(ex,n,fn,this,args): 
    if not args: return IntVal(0)
    return A(ex,args[0])
@stl('std::__exception_ptr::exception_ptr::operator=')
def ep_assign(ex,n,fn,this,args):
    v=A(ex,args[0]); lv=ex.this_of(this); ex.assign(lv,v); return lv
@stl('std::__exception_ptr::exception_ptr::operator bool')
def ep_bool(ex,n,fn,this,args): return ex.val(ex.this_of(this))!=0
@stl('std::exception::what')
def what_(ex,n,fn,this,args): return CSs.mk(ex.fresh(Str,'what'),IntVal(0))
@stl('std::type_index::type_index')
def ti_ctor(ex,n,fn,this,args): return A(ex,args[0])
@stl('std::type_info::name')
def ti_name(ex,n,fn,this,args): return CSs.mk(ex.fresh(Str,'tiname'),IntVal(0))
@stl('std::recursive_mutex::lock','std::mutex::lock')
def mx_lock(ex,n,fn,this,args):
    x=ex.this_of(this); ex.lock(x.ref,strip_targs(fn['qn']).rsplit('::',1)[0]); return IntVal(0)
@stl('std::recursive_mutex::unlock','std::mutex::unlock')
def mx_unlock(ex,n,fn,this,args):
    x=ex.this_of(this); ex.unlock(x.ref,strip_targs(fn['qn']).rsplit('::',1)[0]); return IntVal(0)
@stl('std::recursive_mutex::try_lock','std::mutex::try_lock')
def mx_try(ex,n,fn,this,args):
    x=ex.this_of(this)
    if ex.branch(ex.fresh(B,'trylock')): ex.lock(x.ref,'std::recursive_mutex'); return BoolVal(True)
    return BoolVal(False)
@stl('std::mutex::mutex','std::recursive_mutex::recursive_mutex')
def mx_ctor(ex,n,fn,this,args): return IntVal(0)
# ---------------------------------------------------------------- memory
def skip_casts(n):
    while n['k'] in('ImplicitCastExpr','CStyleCastExpr','CXXStaticCastExpr','CXXReinterpretCastExpr','CXXConstCastExpr') and n.get('ck') in('BitCast','NoOp',None,'CPointerToObjCPointerCast'): n=n['c'][0]
    return n
def ptr_operand(ex,a):
    m=skip_casts(a); t=ex.T(m); v=A(ex,m)
    return v,(t.to if t.k in('ptr','arr') else None)
SIZES={'bool':1,'char':1,'signed char':1,'unsigned char':1,'short':2,'unsigned short':2,'int':4,'unsigned int':4,'long':8,'unsigned long':8,'float':4,'double':8}
def sizeof(t):
    if t.k in('int','float','bool'): return (t.w or 8)//8
    if t.k=='ptr': return 8
    if t.k=='rec' and t.base=='jvalue': return 8
    if t.k=='rec' and strip_targs(t.tmpl or '')=='std::shared_ptr': return 16
    raise Unsupported('sizeof %s'%t.s)
@stl('memcpy','memmove','__builtin_memcpy','std::memcpy','std::memmove')
def memcpy_(ex,n,fn,this,args):
    d,dt=ptr_operand(ex,args[0]); s,st=ptr_operand(ex,args[1]); k=ex.toint(A(ex,args[2]))
    if isinstance(d,PtrTo) and isinstance(s,PtrTo):
        x=s.lv.load(ex); t=st; old=d.lv.load(ex)
        if z3.is_expr(old) and old.sort()==JV and z3.is_expr(x) and t is not None:
            if not z3.is_int_value(k): raise Unsupported('memcpy of unknown size into a union')
            ex.oblige(And(k<=8,k<=sizeof(t)),'bounds','memory access inside the object')
            m='l' if t.k=='ptr' else {'bool':'z','unsigned char':'z','signed char':'b','unsigned short':'c','short':'s','int':'i','long':'j','float':'f','double':'d'}.get(t.base)
            if m is None: raise Unsupported('memcpy of %s into a union'%t.s)
            d.lv.put(ex,ex.jv_mk(m,x,t) if k.as_long()==sizeof(t) else ex.fresh(JV,'partial')); return d
    if dt is None or dt.k=='void' or (z3.is_expr(d) and d.sort()==I):
        # destination typed void*: use the source element type
        dt=st; 
        if z3.is_expr(d) and d.sort()==I: d=ex.void2ptr(d)
    if st is None or st.k=='void':
        st=dt
        if z3.is_expr(s) and s.sort()==I: s=ex.void2ptr(s)
    copy_elems(ex,d,dt,s,st,k); return d
def copy_elems(ex,d,dt,s,st,k):
    if dt.k in('rec',) and strip_targs(dt.tmpl or '')=='std::shared_ptr': raise Unsupported('memcpy of shared_ptr')
    sz=sizeof(dt); so=ex.sort(dt); mk=ex.memkey(dt)
    cnt=z3.simplify(k/sz if sz>1 else k)
    if sz>1:
        cnt2=ex.div_exact(k,sz)
        if cnt2 is not None: cnt=cnt2
        else: ex.oblige(k%sz==0,'memcpy','byte count is a multiple of the element size')
    d=z3.simplify(d)
    src_is_str=s.sort()==CSs
    pos=cnt>0
    if not ex.branch(pos):
        ex.oblige(cnt==0,'bounds','copied byte count is not negative'); return
    ex.memaccess(d,cnt)
    a=ex.mem(mk,so); db=z3.simplify(Ptr.blk(d)); do=z3.simplify(Ptr.off(d)); q=Int('q')
    if src_is_str:
        S=CSs.s(s); O=CSs.o(s)
        ex.oblige(And(Not(CSs.is_null(s)),O>=0,O+cnt<=slen(S)+1),'bounds','copy source inside the string')
        get=lambda i: sat(S,O+i)
        ex.str_at(S,O)
    else:
        if sizeof(st)!=sz: raise Unsupported('memcpy between element sizes')
        if s.sort()==I: s=ex.void2ptr(s)
        s=z3.simplify(s); smk=ex.memkey(st)
        if ex.sort(st)!=so: raise Unsupported('memcpy between element kinds')
        ex.memaccess(s,cnt)
        sa=Select(ex.mem(smk,so),Ptr.blk(s)); sof=z3.simplify(Ptr.off(s)); get=lambda i: Select(sa,sof+i)
    old=Select(a,db)
    if z3.is_int_value(cnt) and cnt.as_long()<=8:
        nb=old
        for i in range(cnt.as_long()): nb=Store(nb,z3.simplify(do+i),get(IntVal(i)))
    else:
        nb=ex.fresh(z3.ArraySort(I,so),'cpy')
        ex.assume(ForAll([q],Select(nb,q)==If(And(q>=do,q<do+cnt),get(q-do),Select(old,q)),patterns=[Select(nb,q)]))
    ex.store[('M',mk)]=Store(a,db,nb); ex.touched('mem.'+mk,db)
def div_exact(ex,k,sz):
    """k == sz*x for a syntactic x (possibly under a modulo that provably does nothing)"""
    k=z3.simplify(k)
    if z3.is_int_value(k): return IntVal(k.as_long()//sz) if k.as_long()%sz==0 else None
    if z3.is_mul(k) and z3.is_int_value(k.arg(0)) and k.arg(0).as_long()==sz and k.num_args()==2: return k.arg(1)
    x=z3.simplify(k/sz)
    if not ex.feasible(k%sz!=0): return x
    return None
Eval.div_exact=div_exact
@stl('memset','__builtin_memset','std::memset')
def memset_(ex,n,fn,this,args):
    m=skip_casts(args[0]); x=A(ex,args[1]); k=ex.toint(A(ex,args[2]))
    v=A(ex,m); t=ex.T(m).to
    if isinstance(v,PtrTo):
        if z3.is_int_value(x) and x.as_long()==0: v.lv.put(ex,ex.zero(ex.sort(t))); return v
        raise Unsupported('memset of a local')
    if z3.is_int_value(x) and x.as_long()==0 and v.sort()==Ptr:
        sz=sizeof(t); so=ex.sort(t); mk=ex.memkey(t)
        cnt=ex.div_exact(k,sz)
        if cnt is None: raise Unsupported('memset size')
        if not ex.branch(cnt>0): return v
        ex.memaccess(v,cnt); a=ex.mem(mk,so); b=z3.simplify(Ptr.blk(v)); o=Ptr.off(v); q=Int('q'); old=Select(a,b); nb=ex.fresh(z3.ArraySort(I,so),'set')
        ex.assume(ForAll([q],Select(nb,q)==If(And(q>=o,q<o+cnt),ex.zero(so),Select(old,q)),patterns=[Select(nb,q)]))
        ex.store[('M',mk)]=Store(a,b,nb); ex.touched('mem.'+mk,b); return v
    raise Unsupported('memset')
@stl('std::copy','std::copy_n','std::fill','std::fill_n')
def copy_(ex,n,fn,this,args):
    a0=A(ex,args[0]); t=ex.T(args[0])
    if fn['n']=='copy':
        e=A(ex,args[1]); d=A(ex,args[2])
        if not(z3.is_expr(a0) and z3.is_expr(d) and d.sort()==Ptr): raise Unsupported('std::copy')
        st=t.to; dt=ex.T(args[2]).to
        cnt=(Ptr.off(e)-Ptr.off(a0)) if a0.sort()==Ptr else CSs.o(e)-CSs.o(a0)
        ex.oblige(cnt>=0,'bounds','std::copy range is ordered')
        copy_elems(ex,d,dt,a0,st,z3.simplify(cnt*sizeof(dt))); return ex.ptradd(d,cnt)
    if fn['n']=='copy_n':
        k=ex.toint(A(ex,args[1])); d=A(ex,args[2])
        if not(z3.is_expr(a0) and z3.is_expr(d) and d.sort()==Ptr): raise Unsupported('std::copy_n')
        dt=ex.T(args[2]).to
        if ex.branch(k>0): copy_elems(ex,d,dt,a0,t.to,z3.simplify(k*sizeof(dt)))
        return d
    if not(z3.is_expr(a0) and a0.sort()==Ptr): raise Unsupported('std::fill')
    if fn['n']=='fill': cnt=Ptr.off(A(ex,args[1]))-Ptr.off(a0)
    else: cnt=ex.toint(A(ex,args[1]))
    dt=t.to; so=ex.sort(dt); mk=ex.memkey(dt); x=A(ex,args[2]); x=ex.wrap(ex.toint(x),dt) if dt.k=='int' else ex.convert(x,so)
    if not ex.branch(cnt>0): return a0
    ex.memaccess(a0,cnt); a=ex.mem(mk,so); b=z3.simplify(Ptr.blk(a0)); o=Ptr.off(a0); q=Int('q'); old=Select(a,b); nb=ex.fresh(z3.ArraySort(I,so),'set')
    ex.assume(ForAll([q],Select(nb,q)==If(And(q>=o,q<o+cnt),x,Select(old,q)),patterns=[Select(nb,q)]))
    ex.store[('M',mk)]=Store(a,b,nb); ex.touched('mem.'+mk,b); return a0
@stl('__builtin_va_start','__builtin_va_end','__builtin_va_copy')
def va_(ex,n,fn,this,args):
    if fn['n']=='__builtin_va_start':
        m=skip_casts(args[0])
        while m['k'] in('ImplicitCastExpr',): m=m['c'][0]
        lv=ex.ev(m)
        vid=ex.cfg.get('va_id') or Const('va_args',VL)
        ck=('VA',ex.fr.n); ex.store[ck]=IntVal(0)
        lv.put(ex,VaList(vid,ck)); return IntVal(0)
    if fn['n']=='__builtin_va_copy':
        m=skip_casts(args[0])
        while m['k'] in('ImplicitCastExpr',): m=m['c'][0]
        lv=ex.ev(m); src=ex.val(ex.ev(args[1]))
        if isinstance(src,PtrTo): src=src.lv.load(ex)
        if not isinstance(src,VaList): raise Unsupported('va_copy')
        ck=('VA',ex.fresh_n); ex.fresh_n+=1; ex.store[ck]=ex.store[src.cur]; lv.put(ex,VaList(src.id,ck)); return IntVal(0)
    return IntVal(0)
@stl('__va_list_tag::__va_list_tag')
def va_ctor(ex,n,fn,this,args):
    if not args: return VaList(None,None)
    return A(ex,args[0])
@stl('std::__shared_ptr::use_count','std::shared_ptr::use_count','std::__weak_ptr::use_count','std::weak_ptr::use_count')
def sp_count(ex,n,fn,this,args):
    """the number of owners is not modelled: any number, at least one if the object is alive (and held)"""
    x=ex.val(ex.this_of(this)); x=x.ref if isinstance(x,Rec) else x; c=ex.fresh(I,'use_count'); ex.assume(And(c>=0,c<=0x7fffffff))
    ex.assume(Implies(x==0,c==0)); ex.assume(Implies(And(x!=0,alive(x)),c>=1)); return c
@stl('std::__shared_ptr::unique','std::shared_ptr::unique')
def sp_unique(ex,n,fn,this,args): return sp_count(ex,n,fn,this,args)==1
@stl('std::vector::capacity','std::basic_string::capacity')
def vec_cap(ex,n,fn,this,args):
    c=ex.fresh(I,'capacity'); lv=ex.this_of(this); v=lv.load(ex); ex.assume(And(c>=0,c<=(1<<62)))
    if v.sort()!=Str: ex.assume(c>=v.sort().len(v))
    else: ex.assume(c>=slen(v))
    return c
@stl('std::basic_string::reserve','std::basic_string::shrink_to_fit')
def str_reserve(ex,n,fn,this,args):
    for a in args: A(ex,a)
    return IntVal(0)
@stl('std::distance')
def distance_(ex,n,fn,this,args):
    a=A(ex,args[0]); b=A(ex,args[1])
    if isinstance(a,Iter): return b.idx-a.idx
    raise Unsupported('std::distance')
