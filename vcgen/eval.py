"""Expressions, statements, calls, loops."""
import re
import os,z3, itertools
from z3 import (And, Or, Not, Implies, If, Select, Store, ForAll, Exists, IntVal, BoolVal, Const, Int, Bool)
from vals import *
from interp import *
from prog import strip_targs, Ty

class Frame:
    __slots__=('n','fn','ctor_args','vars','this','tu','lamthis','parent','dtors')
    def __init__(s,n,fn,tu): s.n=n; s.fn=fn; s.vars={}; s.this=None; s.tu=tu; s.dtors=[]; s.parent=None

def prog_rec(ex,rec):
    import prog
    t=prog.Ty(); t.s=rec; t.k='rec'; t.tmpl=ex.P.recs[rec].get('tmpl'); t.args=[]; return t
class Eval(Exec):
    # ---------------------------------------------------------------- helpers
    @property
    def fr(self): return self.frames[-1]
    def T(self, n, key='t'): return self.fr.tu.types[n[key]]
    def bases(self, rec): return self.P.bases_of(rec)
    def rv(self, n):
        x=self.ev(n)
        if isinstance(x,LV): return x.load(self)
        return x
    def ev(self, n):
        if n is None: raise Unsupported('missing node')
        if n.get('l'): self.line=n['l']
        if 'cv' in n:
            ty=self.T(n)
            v=int(n['cv'])
            return BoolVal(v!=0) if ty.k=='bool' else IntVal(v)
        m=getattr(self,'ev_'+n['k'],None)
        if m is None: raise Unsupported('expression %s'%n['k'])
        return m(n)
    # ---------------------------------------------------------------- literals
    def ev_IntegerLiteral(self,n): return IntVal(int(n['v']))
    def ev_CharacterLiteral(self,n):
        v=int(n['v']); return IntVal(v if v<128 else v-256)
    def ev_CXXBoolLiteralExpr(self,n): return BoolVal(bool(n['v']))
    def ev_CXXNullPtrLiteralExpr(self,n): return IntVal(0)
    def ev_GNUNullExpr(self,n): return IntVal(0)
    def ev_FloatingLiteral(self,n):
        so=self.sort(self.T(n)); return self.zero(so) if float(n['v'])==0 else Const('flit_%r'%n['v'],so)
    def ev_StringLiteral(self,n):
        return TmpLV(CSs.mk(self.lit(n['bytes']),IntVal(0)),self.T(n))
    def ev_PredefinedExpr(self,n): return TmpLV(CSs.mk(self.lit(b'fn'),IntVal(0)),self.T(n))
    def ev_CXXThisExpr(self,n):
        f=self.fr
        if f.this is None: raise Unsupported('this')
        return f.this
    def ev_CXXDefaultInitExpr(self,n): return self.ev(n['c'][0])
    def ev_ImplicitValueInitExpr(self,n): return self.default(self.T(n))
    def ev_CXXScalarValueInitExpr(self,n): return self.default(self.T(n))
    # ---------------------------------------------------------------- names
    def lookup(self, vid):
        f=self.fr
        while f is not None:
            if vid in f.vars: return f.vars[vid]
            f=f.parent
        return None
    def ev_DeclRefExpr(self,n):
        if 'fn' in n: return FnPtr(self.fnof(n['fn']))
        if 'var' in n:
            lv=self.lookup(n['var'])
            if lv is not None: return lv
            if 'global' in n:
                ty=self.T(n); key=('G',n['global'])
                if ty.k=='rec' and self.rk(ty)=='obj':
                    return Rec(func('glob_'+n['global'],I)() if False else Const('glob_'+n['global'],I),ty)
                if key not in self.store: self.store[key]=self.fresh_of(ty,'g')
                return StoreLV(key,ty)
            raise Unsupported('variable %s'%n.get('n'))
        if 'cv' in n: return IntVal(int(n['cv']))
        raise Unsupported('declref')
    def fnof(self, info):
        f=self.P.fns.get(info['id'])
        if f is None:
            f=type('ExtFn',(),{})(); f.id=info['id']; f.qn=info['qn']; f.n=info['n']; f.d=None; f.sqn=strip_targs(info['qn']); f.info=info; f.tu=self.fr.tu; f.loc='?'
        return f
    def fieldLV(self, ref, frec, fname, idx, ty):
        """field of the object ref"""
        if ty.k=='ref': return HeapLV(frec+'.'+fname,ref,ty,I)
        if ty.k=='rec' and self.rk(ty)=='obj': return Rec(self.subref(frec,fname,ref),ty)
        if ty.k=='rec' and self.rk(ty)=='tbl': return HeapLV('cell.'+ty.base,self.subref(frec,fname,ref),ty,TBL)
        return HeapLV(frec+'.'+fname,ref,ty,self.sort(ty))
    def subref(self, frec, fname, ref):
        s=func('sub_%s_%s'%(frec,fname),I,I)(ref); i=s.get_id()
        if i not in self.seen_reads:
            self.seen_reads.add(i); self.keep.append(s)
            self.assume(s<0); self.assume(func('own_%s_%s'%(frec,fname),I,I)(s)==ref)
            self.assume(func('subkind',I,I)(s)==abs(hash_str(frec+'.'+fname)))
        return s
    def deref(self, v, ty):
        """glvalue designated by pointer value v; ty: pointee type"""
        if isinstance(v,PtrTo): return v.lv
        if isinstance(v,Rec): return v
        if isinstance(v,(FnPtr,Lambda)): return v
        if isinstance(v,Iter):
            return self.elem(v)
        if ty.k=='rec':
            k=self.rk(ty)
            if k in('obj','lambda'):
                self.oblige(v!=0,'null-deref','dereference of a null pointer (%s)'%ty.base)
                return Rec(v,ty)
            if k in('str','vec','map','tbl','stream'):
                self.oblige(v!=0,'null-deref','dereference of a null pointer (%s)'%ty.base)
                return HeapLV('cell.'+ty.base,v,ty,self.sort(ty))
        if z3.is_expr(v) and v.sort()==CSs: return CharLV(v,ty)
        if z3.is_expr(v) and v.sort()==Ptr:
            self.memaccess(v)
            return MemLV(self.memkey(ty),v,ty,self.sort(ty))
        if ty.k=='func': return v
        raise Unsupported('dereference of %s'%ty.s)
    def memkey(self, ty):
        if self.isref(ty) or ty.k=='ptr' : return 'ref' if self.sort(ty)==I else ty.base
        return ty.base
    def blksize(self): return self.hmap('blk.size',I)
    def memaccess(self, p, n=None):
        b=z3.simplify(Ptr.blk(p)); o=z3.simplify(Ptr.off(p)); sz=Select(self.blksize(),b)
        n=IntVal(1) if n is None else n
        self.oblige(b!=0,'null-deref','dereference of a null pointer')
        self.oblige(And(o>=0,o+n<=sz),'bounds','memory access inside the block')
        if self.cfg.get('blk_live'): self.oblige(Select(self.hmap('blk.live',B),b),'use-after-free','block is allocated')
    def new_block(self, size):
        b=self.new_ref()
        self.store[('H','blk.size')]=Store(self.blksize(),b,size); self.touched('blk.size',b)
        self.store[('H','blk.live')]=Store(self.hmap('blk.live',B),b,BoolVal(True)); self.touched('blk.live',b)
        return b
    def elem(self, it):
        v=it.lv.load(self); so=v.sort(); ty=self.elemty(it.lv.ty)
        if v.sort()==Str: return StrElemLV(it.lv,it.idx,ty)
        i=it.idx if not it.rev else so.len(v)-1-it.idx
        i=z3.simplify(i)
        self.oblige(And(i>=0,i<so.len(v)),'bounds','iterator dereference inside the container')
        return self.elemLV(it.lv,i,ty)
    def elemLV(self, lv, i, ty): return ElemLV(lv,i,ty)
    def elemty(self, ty):
        if ty.k=='ref': ty=ty.to
        if ty.k=='rec' and strip_targs(ty.tmpl or ty.base) in MULTIMAPS:
            c=self.P.__dict__.setdefault('mmtypes',{}); t=c.get(ty.base)
            if t is None: t=Ty(); t.k='rec'; t.s='std::pair<const %s, %s>'%(ty.args[0].s,ty.args[1].s); t.tmpl='std::pair'; t.args=ty.args[:2]; c[ty.base]=t
            return t
        if ty.k=='rec' and ty.args: return ty.args[0]
        raise Unsupported('element type of %s'%ty.s)
    def ev_MemberExpr(self,n):
        if 'fn' in n: raise Unsupported('bound member')
        if 'var' in n:
            key=('G',n['global']); ty=self.T(n)
            if key not in self.store: self.store[key]=self.fresh_of(ty,'g')
            return StoreLV(key,ty)
        b=n['c'][0]; ty=self.T(n)
        if n['arrow']:
            bv=self.rv(b); bt=self.T(b); pt=bt.to
            base=self.deref(bv,pt)
        else:
            base=self.ev(b); pt=self.T(b)
        return self.member(base,pt,n['frec'],n['field'],n['idx'],ty)
    def member(self, base, pt, frec, field, idx, ty):
        if isinstance(base,Rec):
            fd=self.P.field(frec,field)
            if fd is not None and fd['t'].k=='ref':
                to=fd['t'].to; v=z3.simplify(HeapLV(frec+'.'+field,base.ref,fd['t'],I).load(self))
                if to.k=='rec' and self.rk(to)=='obj': return Rec(v,to)
                return HeapLV('cell.'+to.base,v,to,self.sort(to))
            return self.fieldLV(base.ref,frec,field,idx,ty)
        if isinstance(base,PyStruct): return base.get(field)
        if isinstance(base,LV) or z3.is_expr(base):
            lv=base if isinstance(base,LV) else TmpLV(base,pt)
            k=self.rk(pt) if pt.k=='rec' else None
            if k=='tbl': return TblLV(lv,idx,ty)
            if k=='jv': return JVLV(lv,field,ty)
            if k=='struct':
                names=[x[0] for x in self.struct_fields(pt)]
                return StructLV(lv,names.index(field),ty)
        if isinstance(base,PyStruct):
            return base.get(field)
        raise Unsupported('member %s of %s'%(field,pt.s))
    # ---------------------------------------------------------------- casts
    def cast(self,n): 
        ck=n.get('ck'); c=n['c'][0]; ty=self.T(n)
        if ck in('LValueToRValue',):
            x=self.ev(c)
            if isinstance(x,LV):
                v=x.load(self)
                return v
            return x
        if ck in('NoOp','ToVoid','ConstructorConversion','UserDefinedConversion','FunctionToPointerDecay'): 
            x=self.ev(c)
            return x
        if ck in('DerivedToBase','UncheckedDerivedToBase','BaseToDerived'):
            x=self.ev(c)
            t=ty.to if ty.k in('ptr','ref') else ty
            if isinstance(x,Rec) and t.k=='rec' and ty.k!='ptr':
                k=self.rk(t)
                if k=='obj': return Rec(x.ref,t)
                if k in('str','vec','map'): return HeapLV('cell.'+t.base,x.ref,t,self.sort(t))
                return x
            if isinstance(x,LV) and ty.k=='ptr' : return x.load(self) if not n.get('lv') else x
            return x
        if ck in('IntegralCast','BooleanToSignedIntegral'):
            v=self.toint(self.rv(c)); 
            if ty.k=='bool': return v!=0
            src=self.T(c)
            if src.k=='int':
                lo,hi=self.int_range(ty); slo,shi=self.int_range(src)
                if slo>=lo and shi<=hi: return v
            if src.k=='bool': return v
            return self.wrap(v,ty)
        if ck in('IntegralToBoolean','PointerToBoolean','FloatingToBoolean','MemberPointerToBoolean'):
            return self.truth(self.rv(c))
        if ck in('NullToPointer','NullToMemberPointer'):
            return self.zero(self.sort(ty))
        if ck in('BitCast','CPointerToObjCPointerCast','AddressSpaceConversion','LValueBitCast','ReinterpretMemberPointer','PointerToIntegral','IntegralToPointer','AnyPointerToBlockPointerCast'):
            v=self.ev(c)
            if isinstance(v,LV): v=v.load(self) if ck!='LValueBitCast' else v
            if isinstance(v,(PtrTo,FnPtr,Lambda,Rec)): return v
            try: so=self.sort(ty)
            except Unsupported: return v
            return self.convert(v,so)
        if ck=='ArrayToPointerDecay':
            x=self.ev(c)
            if isinstance(x,TmpLV) and z3.is_expr(x.v) and x.v.sort()==CSs: return x.v
            if isinstance(x,LV):
                v=x.load(self)
                if isinstance(v,VaList): return PtrTo(x)
                return v
            if isinstance(x,VaList): return x
            return x
        if ck=='FloatingCast':
            v=self.rv(c); a=self.T(c)
            if a.w==ty.w: return v
            if ty.w==32:
                if z3.is_app(v) and v.decl().eq(f64_of): return v.arg(0)
                return f32_of(v)
            r=f64_of(v); i=r.get_id()
            if i not in self.seen_reads: self.seen_reads.add(i); self.keep.append(r); self.assume(f32_of(r)==v)
            return r
        if ck=='IntegralToFloating':
            v=self.toint(self.rv(c)); so=self.sort(ty)
            if z3.is_int_value(v) and v.as_long()==0: return self.zero(so)
            return func('i2f_'+so.name(),I,so)(v)
        if ck=='FloatingToIntegral':
            v=self.rv(c); r=func('f2i_%s_%s'%(v.sort().name(),ty.base),v.sort(),I)(v); self.on_read(r,ty); return r
        if ck=='Dynamic':
            if ty.k!='ptr':
                x=self.ev(c)
                if not isinstance(x,Rec): raise Unsupported('dynamic_cast of a non-object')
                if not self.branch(self.isa(ty.base,x.ref)): raise CppThrow('std::bad_cast',Opaque('exc'),self.new_ref())
                return Rec(x.ref,ty)
            return self.dyncast(self.rv(c),ty)
        raise Unsupported('cast %s'%ck)
    ev_ImplicitCastExpr=ev_CStyleCastExpr=ev_CXXStaticCastExpr=ev_CXXReinterpretCastExpr=ev_CXXConstCastExpr=ev_CXXFunctionalCastExpr=ev_CXXDynamicCastExpr=lambda self,n: self.cast(n)
    def dyncast(self, v, ty):
        t=ty.to
        c=self.isa(t.base,v)
        if self.branch(And(v!=0,c)): return v
        return IntVal(0)
    # ---------------------------------------------------------------- temporaries
    def ev_ExprWithCleanups(self,n): 
        mark=len(self.fr.dtors)
        try: r=self.ev(n['c'][0])
        except CppThrow:
            raise
        return r
    def ev_MaterializeTemporaryExpr(self,n):
        x=self.ev(n['c'][0])
        if isinstance(x,(LV,Rec)): return x
        return TmpLV(x,self.T(n))
    def ev_CXXStdInitializerListExpr(self,n):
        x=self.ev(n['c'][0])
        return x.load(self) if isinstance(x,LV) else x
    def ev_InitListExpr(self,n):
        ty=self.T(n)
        if ty.k=='rec':
            k=self.rk(ty)
            if k=='jv':
                if not n['c']: return self.default(ty)
                uf=n.get('ufield'); v=self.rv(n['c'][0])
                f=self.P.field('jvalue',uf) if uf else None
                if f is None: raise Unsupported('union init')
                return self.jv_mk(uf,v,f['t'])
            if k=='struct':
                so=self.sort(ty); fs=self.struct_fields(ty)
                vals=[self.rv(c) for c in n['c']]
                return so.mks(*[self.convert(v,self.sort(t)) for v,(nm,t) in zip(vals,fs)])
            if k=='tbl':
                a=z3.K(I,IntVal(0))
                for i,c in enumerate(n['c']):
                    v=self.rv(c)
                    a=Store(a,IntVal(i),self.fnid(v))
                return a
            if k=='obj':
                r=self.new_ref(ty.base); rec=self.P.recs.get(ty.base)
                if not rec or rec.get('fields') is None: raise Unsupported('aggregate %s'%ty.s)
                fs=rec['fields']
                if rec.get('bases'): raise Unsupported('aggregate with bases')
                for i,(c,f) in enumerate(zip(n['c'],fs)):
                    self.init_field(r,ty.base,f['n'],i,f['t'],c)
                return Rec(r,ty)
            if k in('vec','str'): raise Unsupported('init list %s'%ty.s)
        if ty.k=='arr':
            vals=[self.rv(c) for c in n['c']]
            if n.get('filler') and ty.n is not None:
                while len(vals)<ty.n: vals.append(self.rv(n['filler']))
            return InitL(vals)
        if len(n['c'])==1: return self.rv(n['c'][0])
        if len(n['c'])==0: return self.default(ty)
        raise Unsupported('init list of %s'%ty.s)
    def fnid(self, v):
        if isinstance(v,FnPtr): return Const('fn_'+v.fn.id,I)
        if isinstance(v,Lambda): return self.lam_token(v)
        if z3.is_expr(v): return self.convert(v,I)
        raise Unsupported('function value')
    def fn_of(self, x):
        """the function a known function-pointer value designates"""
        if isinstance(x,(FnPtr,Lambda)): return x
        x=z3.simplify(x)
        if x.get_id() in self.lambdas: return self.lambdas[x.get_id()]
        if z3.is_const(x) and x.decl().name().startswith('fn_') and x.decl().name()[3:] in self.P.fns: return FnPtr(self.P.fns[x.decl().name()[3:]])
        return x
    def lam_token(self, v):
        if not hasattr(v,'tok'):
            v.tok=self.new_ref(); self.lambdas[v.tok.get_id()]=v
        return v.tok
    def init_field(self, ref, frec, fname, idx, fty, init):
        lv=self.fieldLV(ref,frec,fname,idx,fty)
        if isinstance(lv,Rec):
            x=self.construct_into(lv.ref,fty,init); return
        if fty.k=='ref':
            x=self.ev(init); lv.put(self,self.addr(x)); return
        x=self.rv(init)
        self.assign(lv,x)
    def addr(self, x):
        """integer address of a glvalue kept in the heap"""
        if isinstance(x,Rec): return x.ref
        if isinstance(x,HeapLV) and x.key.startswith('cell.'): return x.ref
        raise Unsupported('address of location kept in heap')
    def assign(self, lv, x):
        if isinstance(x,InitL): raise Unsupported('array init')
        if isinstance(x,Rec): x=x.ref
        if isinstance(lv,StoreLV):
            try: so=self.sort(lv.ty if lv.ty.k!='ref' else lv.ty.to)
            except Unsupported: so=None
            if so is not None and z3.is_expr(x): x=self.convert(x,so)
            lv.put(self,x); return
        if isinstance(x,FnPtr): x=self.fnid(x)
        if isinstance(x,Lambda): x=self.lam_token(x)
        if isinstance(x,(PtrTo,Iter,MapIter,VaList)): raise Unsupported('%s stored in heap'%type(x).__name__)
        ty=lv.ty.to if lv.ty.k=='ref' else lv.ty
        lv.put(self,self.convert(x,self.sort(ty)))
    # ---------------------------------------------------------------- operators
    def ev_UnaryOperator(self,n):
        op=n['op']; c=n['c'][0]; ty=self.T(n)
        if op=='&':
            if c['k']=='DeclRefExpr' and 'field' in c: return MemPtr(c['frec'],c['field'])
            x=self.ev(c)
            if isinstance(x,Rec): return x.ref
            if isinstance(x,MemLV): return x.ptr
            if isinstance(x,HeapLV) and x.key.startswith('cell.'): return x.ref
            if isinstance(x,FnPtr): return x
            if isinstance(x,CharLV): return x.cs
            if isinstance(x,StoreLV) or isinstance(x,LV): return PtrTo(x)
            raise Unsupported('address-of')
        if op=='*':
            v=self.rv(c); ct=self.T(c)
            if isinstance(v,VaList): return v
            return self.deref(v, ct.to if ct.k in('ptr',) else ty)
        if op=='!': return Not(self.truth(self.rv(c)))
        if op=='-': return self.binop('-',IntVal(0),self.toint(self.rv(c)),ty) if ty.k=='int' else func('fneg',self.sort(ty),self.sort(ty))(self.rv(c))
        if op=='+': return self.toint(self.rv(c))
        if op=='~':
            v=self.toint(self.rv(c)); r=-v-1; return self.wrap(r,ty)
        if op in('++','--'):
            lv=self.ev(c); old=lv.load(self); ct=self.T(c)
            d=1 if op=='++' else -1
            new=self.step(old,d,ct)
            lv.put(self,new)
            if n['postfix']: return old
            return lv
        if op=='__extension__': return self.ev(c)
        raise Unsupported('unary '+op)
    def step(self, old, d, ct):
        if isinstance(old,Iter): return Iter(old.lv,z3.simplify(old.idx+d),old.rev)
        if old.sort()==Ptr: return Ptr.mkp(z3.simplify(Ptr.blk(old)),z3.simplify(Ptr.off(old)+d))
        if old.sort()==CSs: return CSs.mk(z3.simplify(CSs.s(old)),z3.simplify(CSs.o(old)+d))
        if ct.k=='int' and (ct.w or 32)<32: return self.wrap(old+d,ct)
        return self.binop('+' if d>0 else '-',old,IntVal(1),ct)
    def ptradd(self, p, k):
        if p.sort()==Ptr: return Ptr.mkp(z3.simplify(Ptr.blk(p)),z3.simplify(Ptr.off(p)+k))
        if p.sort()==CSs: return CSs.mk(z3.simplify(CSs.s(p)),z3.simplify(CSs.o(p)+k))
        raise Unsupported('pointer arithmetic')
    def memptr(self,n):
        """operands of ->* and .*: object reference and member pointer"""
        a,b=n['c']
        if n['op']=='->*': o=self.deref(self.rv(a),self.T(a).to)
        else: o=self.ev(a)
        h=self.rv(b)
        if isinstance(o,Rec) and isinstance(h,MemPtr): return o.ref,h,self.T(b)
        if not isinstance(o,Rec) or not z3.is_expr(h) or h.sort()!=I: raise Unsupported('member pointer')
        return o.ref,h,self.T(b)
    def ev_BinaryOperator(self,n):
        op=n['op']; a,b=n['c']; ty=self.T(n)
        if op=='=':
            # right operand first (C++17); operands are independent in this code base
            rt=self.T(a)
            y=self.rv(b); lv=self.ev(a)
            if isinstance(lv,Rec): raise Unsupported('builtin assignment of a class')
            self.assign(lv,y); return lv
        if op==',': self.ev(a); return self.ev(b)
        if op in('->*','.*'):
            o,h,mt=self.memptr(n)
            if isinstance(h,MemPtr):
                fl=self.P.recs[h.rec]['fields']; i=[f['n'] for f in fl].index(h.field); return self.fieldLV(o,h.rec,h.field,i,fl[i]['t'])
            self.trust('member pointers of a hook designate members of their own: one location per object and member pointer')
            return HeapLV('mp.'+ty.s,func('member',I,I,I)(o,h),ty,self.sort(ty))
        if op=='&&':
            if not self.branch(self.truth(self.rv(a))): return BoolVal(False)
            return self.truth(self.rv(b))
        if op=='||':
            if self.branch(self.truth(self.rv(a))): return BoolVal(True)
            return self.truth(self.rv(b))
        ta,tb=self.T(a),self.T(b)
        x=self.rv(a); y=self.rv(b)
        return self.arith(op,x,y,ty,ta,tb)
    def arith(self, op, x, y, ty, ta, tb):
        if op in('==','!=','<','>','<=','>='): return self.cmp(op,x,y)
        if ta.k=='ptr' and tb.k=='ptr' and op=='-':
            if x.sort()==Ptr: return Ptr.off(x)-Ptr.off(y)
            if x.sort()==CSs: return CSs.o(x)-CSs.o(y)
        if ta.k=='ptr' and op in('+','-'): return self.ptradd(x,self.toint(y) if op=='+' else -self.toint(y))
        if tb.k=='ptr' and op=='+': return self.ptradd(y,self.toint(x))
        if ty.k=='float': return func('f'+{'+':'add','-':'sub','*':'mul','/':'div'}[op],self.sort(ty),self.sort(ty),self.sort(ty))(x,y)
        x=self.toint(x); y=self.toint(y)
        return self.binop(op,x,y,ty,ta,tb)
    def ev_CompoundAssignOperator(self,n):
        op=n['op'][:-1]; a,b=n['c']
        y=self.rv(b); lv=self.ev(a); x=lv.load(self)
        ct=self.fr.tu.types[n['ct']]; ta=self.T(a); clt=self.fr.tu.types[n['clt']]
        if ta.k=='ptr': r=self.ptradd(x,y if op=='+' else -y)
        else:
            xi=self.toint(x) if z3.is_expr(x) else x
            r=self.arith(op,xi,y,ct,clt,self.T(b))
            if ta.k=='int': r=self.wrap(r,ta) if r.sort()==I else r
            if ta.k=='bool': r=self.truth(r)
        self.assign(lv,r); return lv
    def ev_ConditionalOperator(self,n):
        c,a,b=n['c']
        if self.branch(self.truth(self.rv(c))): return self.condres(n,a)
        return self.condres(n,b)
    def condres(self,n,a):
        x=self.ev(a)
        if not n.get('lv'):
            if isinstance(x,LV): x=x.load(self)
            ty=self.T(n)
            if z3.is_expr(x):
                try: x=self.convert(x,self.sort(ty))
                except Unsupported: pass
        return x
    def ev_BinaryConditionalOperator(self,n): raise Unsupported('?:')
    def ev_ArraySubscriptExpr(self,n):
        a,b=n['c']; p=self.rv(a); i=self.toint(self.rv(b))
        if isinstance(p,PyArr): return p.at(self,i)
        if isinstance(p,PtrTo) and z3.is_int_value(i) and i.as_long()==0: return p.lv
        return self.deref(self.ptradd(p,i),self.T(n))
    def ev_CXXTypeidExpr(self,n):
        if 'ty' in n: return TmpLV(Const('typeid_'+self.fr.tu.types[n['ty']].base,I),self.T(n))
        raise Unsupported('typeid of expression')
    def ev_CXXBindTemporaryExpr(self,n): return self.ev(n['c'][0])
    def ev_CXXThrowExpr(self,n):
        c=n['c'][0]
        if c is None:
            if not self.cur_exc: raise Unsupported('rethrow')
            raise self.cur_exc[-1]
        ty=self.T(c)
        try: v=self.ev(c)
        except Unsupported: v=Opaque('exc')
        r=self.new_ref(); self.excvals=getattr(self,'excvals',{}); self.excvals[r.get_id()]=(r,v)
        raise CppThrow(ty.base,v,r)
    def ev_CXXNewExpr(self,n):
        at=self.T(n,'at')
        if n['array']:
            sz=self.toint(self.rv(n['size'])) if 'size' in n else None
            init=n.get('init'); vals=None
            if init is not None:
                if init['k']=='InitListExpr':
                    vals=[self.rv(c) for c in init['c']]
                elif init['k'] in('ImplicitValueInitExpr','CXXConstructExpr'): vals=[] 
                else: raise Unsupported('array new init')
            if sz is None: sz=IntVal(len(vals or []))
            # negative/oversized sizes throw std::bad_array_new_length
            if not self.branch(sz>=0): raise CppThrow('std::bad_array_new_length',Opaque('exc'),self.new_ref())
            b=self.new_block(sz); p=Ptr.mkp(b,IntVal(0)); so=self.sort(at); mk=self.memkey(at)
            a=self.mem(mk,so)
            if vals is not None or at.k=='rec':
                blk=z3.K(I,self.zero(so))
                for i,v in enumerate(vals or []): blk=Store(blk,IntVal(i),self.convert(v,so))
            else: blk=self.fresh(z3.ArraySort(I,so),'newmem')
            self.store[('M',mk)]=Store(a,b,blk); self.touched('mem.'+mk,b)
            return p
        if at.k=='rec' and self.rk(at)=='obj':
            x=self.ev(n['init']) if n.get('init') else None
            if isinstance(x,Rec): return x.ref
        raise Unsupported('new %s'%at.s)
    def ev_CXXDeleteExpr(self,n):
        p=self.rv(n['c'][0])
        if z3.is_expr(p) and p.sort()==I: p=self.void2ptr(p)
        if z3.is_expr(p) and p.sort()==Ptr:
            if self.branch(Ptr.blk(p)==0): return IntVal(0)
            b=z3.simplify(Ptr.blk(p)); l=self.hmap('blk.live',B)
            self.oblige(And(Select(l,b),Ptr.off(p)==0),'double-free','delete[] of a live allocation start')
            self.store[('H','blk.live')]=Store(l,b,BoolVal(False)); self.touched('blk.live',b)
            return IntVal(0)
        raise Unsupported('delete')
    def ev_UnaryExprOrTypeTraitExpr(self,n): raise Unsupported('sizeof')
    def ev_LambdaExpr(self,n):
        caps={}
        for c in n['caps']:
            if c.get('this'): continue
            if c['byref']:
                lv=self.lookup(c['var'])
                if lv is None: lv=self.ev(c['init'])
                caps[c['var']]=lv
            else:
                x=self.ev(c['init'])
                if isinstance(x,Rec): caps[c['var']]=x
                else:
                    ty=self.fr.tu.types[c['vt']] if 'vt' in c else self.T(c['init'])
                    if ty.k=='ref': ty=ty.to
                    key=('C',self.fresh_n,c['var']); self.fresh_n+=1
                    self.store[key]=self.val(x); caps[c['var']]=StoreLV(key,ty)
        f=self.P.fns.get(n.get('op')) if n.get('op') else None
        return Lambda(f,caps,self.fr.this,n,self.fr)
    def ev_VAArgExpr(self,n):
        x=self.ev(n['c'][0]); x=self.val(x)
        if isinstance(x,PtrTo): x=x.lv.load(self)
        ty=self.T(n)
        return self.va_next(x,ty)
    def va_next(self, va, ty):
        if not isinstance(va,VaList): raise Unsupported('va_arg')
        cur=self.store[va.cur]; so=self.sort(ty)
        r=func('va_'+('ptr' if ty.k=='ptr' else ty.base),VL,I,so)(va.id,cur)
        self.on_read(r,ty)
        self.store[va.cur]=z3.simplify(cur+1)
        self.va_event(va,cur,ty)
        return r
    def va_event(self, va, cur, ty): pass
    # ---------------------------------------------------------------- construction
    def ev_CXXConstructExpr(self,n):
        ty=self.T(n); fn=n['fn']
        if ty.k=='arr': 
            return InitL(None)
        k=self.rk(ty)
        if n.get('elid') and n['args']:
            x=self.ev(n['args'][0])
            if isinstance(x,LV): x=x.load(self)
            if z3.is_expr(x) and k not in('obj','lambda'): 
                try: x=self.convert(x,self.sort(ty))
                except Unsupported: pass
            return x
        if k=='obj' and strip_targs(ty.tmpl or ty.base) not in MUTEX_RECS:
            rec=self.P.recs.get(ty.base)
            h=self.stl.get(strip_targs(fn['qn'])) 
            if h and not (rec and rec.get('repo')): return h(self,n,fn,None,n['args'])
            r=self.new_ref(ty.base)
            self.run_ctor(r,ty,n)
            return Rec(r,ty)
        h=self.stl.get(strip_targs(fn['qn']))
        if h: return h(self,n,fn,None,n['args'])
        if k=='jv' or k=='struct':
            if fn.get('copy') or fn.get('move'): return self.rv(n['args'][0])
            if not n['args']:
                # a plain C struct/union without initialiser is indeterminate, value-initialisation zeroes
                return self.default(ty) if n.get('zero') or k=='struct' and (ty.tmpl or '').startswith('std::') else self.fresh_of(ty,'uninit')
        if k=='tbl':
            if fn.get('copy') or fn.get('move'): return self.rv(n['args'][0])
            return self.default(ty)
        if k=='lambda':
            return self.ev(n['args'][0])
        raise Unsupported('constructor %s'%fn['qn'])
    ev_CXXTemporaryObjectExpr=ev_CXXConstructExpr
    def construct_into(self, ref, ty, n):
        """initialise the (sub)object ref of class type ty from the initialiser expression"""
        m=n
        while m['k'] in('ExprWithCleanups','MaterializeTemporaryExpr','ImplicitCastExpr') or (m['k'] in('CXXConstructExpr',) and m.get('elid')):
            m=m['c'][0] if 'c' in m else m['args'][0]
        if m['k'] in('CXXConstructExpr','CXXTemporaryObjectExpr'):
            if strip_targs(ty.tmpl or ty.base) in MUTEX_RECS:
                return
            self.run_ctor(ref,ty,m); return
        if m['k']=='InitListExpr':
            rec=self.P.recs.get(ty.base)
            if rec and rec.get('fields') is not None:
                for i,(c,f) in enumerate(zip(m['c'],rec['fields'])): self.init_field(ref,ty.base,f['n'],i,f['t'],c)
                return
        raise Unsupported('initialisation of %s by %s'%(ty.s,m['k']))
    def run_ctor(self, ref, ty, n):
        fn=n['fn']; f=self.P.fns.get(fn['id'])
        con=self.contracts.get(strip_targs(fn['qn']))
        if con and con.use(self,fn):
            con.apply(self,n,fn,Rec(ref,ty),self.bind_args(fn,n.get('args',[]),n)); return
        if f is None or f.d is None:
            rec=self.P.recs.get(ty.base)
            if rec and not rec.get('repo'):
                h=self.stl.get(strip_targs(fn['qn']))
                if h: h(self,n,fn,Rec(ref,ty),n['args']); return
                raise Unsupported('constructor %s'%fn['qn'])
            if rec and fn.get('default'):
                self.implicit_default(ref,ty.base); return
            if rec and (fn.get('copy') or fn.get('move')):
                o=self.ev(n['args'][0]); self.copy_obj(ref,o.ref,ty.base); return
            raise Unsupported('constructor body %s'%fn['qn'])
        self.ctor_body(ref,ty,f,self.bind_args(fn,n.get('args',[]),n),top=True)
    def implicit_default(self, ref, rec):
        r=self.P.recs.get(rec)
        if not r: return
        for b in r.get('bases') or []: self.implicit_base(ref,b['t'])
        for i,f in enumerate(r.get('fields') or []):
            t=f['t']
            if t.k=='rec' and self.rk(t) not in('obj',): self.fieldLV(ref,rec,f['n'],i,t).put(self,self.default(t))
            elif t.k=='rec' and self.P.recs.get(t.base,{}).get('repo'): self.implicit_default(self.subref(rec,f['n'],ref),t.base)
    def implicit_base(self, ref, t):
        if self.P.recs.get(t.base,{}).get('repo'): self.implicit_default(ref,t.base)
        elif t.k=='rec' and self.rk(t) in('str','vec','map'): HeapLV('cell.'+t.base,ref,t,self.sort(t)).put(self,self.default(t))
    def copy_obj(self, dst, src, rec):
        r=self.P.recs.get(rec)
        for b in r.get('bases') or []:
            t=b['t']
            if self.P.recs.get(t.base,{}).get('repo'): self.copy_obj(dst,src,t.base)
            elif self.rk(t) in('str','vec','map'): 
                HeapLV('cell.'+t.base,dst,t,self.sort(t)).put(self,HeapLV('cell.'+t.base,src,t,self.sort(t)).load(self))
        for i,f in enumerate(r.get('fields') or []):
            a=self.fieldLV(dst,rec,f['n'],i,f['t']); b=self.fieldLV(src,rec,f['n'],i,f['t'])
            if isinstance(a,Rec):
                if self.P.recs.get(f['t'].base,{}).get('repo'): self.copy_obj(a.ref,b.ref,f['t'].base)
            else: a.put(self,b.load(self))
    def ctor_body(self, ref, ty, f, args, top=False):
        """run constructor f on ref; args: bound parameter list"""
        fr=self.push(f,args,Rec(ref,ty)); fr.ctor_args=args
        try:
            d=f.d
            done=set(); built=[]
            vb=getattr(self,'_vbases',None)
            if top:
                self._vb_stack=getattr(self,'_vb_stack',[])
                self._vb_stack.append(set())
            for ini in d.get('inits',[]):
                if ini.get('deleg'):
                    m=ini['e']
                    while m['k'] in('ExprWithCleanups',): m=m['c'][0]
                    self.run_ctor_deleg(ref,ty,m); built.append((None,f.rec().base))
                elif 'base' in ini:
                    bt=self.fr.tu.types[ini['base']]
                    if ini.get('bvirt'):
                        if bt.base in self._vb_stack[-1]: continue
                        self._vb_stack[-1].add(bt.base)
                    self.init_base(ref,bt,ini['e']); built.append((None,bt.base))
                elif 'field' in ini:
                    ft=self.fr.tu.types[ini['ft']]
                    rec=f.rec().base; fl=[x['n'] for x in self.P.recs[rec]['fields']]
                    done.add(ini['field'])
                    if ft.k=='rec' and self.rk(ft)=='obj' or True:
                        self.init_field2(ref,rec,ini['field'],fl.index(ini['field']),ft,ini['e'])
                    if ft.k=='rec' and self.P.recs.get(ft.base,{}).get('repo') and self.rk(ft)=='obj': built.append((ini['field'],ft.base))
            rec=f.rec().base; r=self.P.recs.get(rec)
            if f.d.get('body'): self.exec_body(f.d['body'])
        except ReturnExc: pass
        except CppThrow:
            for fld,b in reversed(built):
                if self.has_dtor(b): self.destroy(ref if fld is None else self.subref(f.rec().base,fld,ref),b)
            raise
        finally:
            if top: self._vb_stack.pop()
            self.pop(fr)
    def init_field2(self, ref, rec, fname, idx, ft, e):
        if ft.k=='arr': return
        self.init_field(ref,rec,fname,idx,ft,e)
    def init_base(self, ref, bt, e):
        m=e
        while m['k'] in('ExprWithCleanups',): m=m['c'][0]
        rec=self.P.recs.get(bt.base)
        if rec and rec.get('repo'):
            if m['k'] in('CXXConstructExpr','CXXTemporaryObjectExpr','CXXInheritedCtorInitExpr'):
                f=self.P.fns.get(m['fn']['id'])
                if m['k']=='CXXInheritedCtorInitExpr':
                    # an inheriting constructor hands its own parameters on, unchanged and in order
                    if f is None or len(f.params())!=len(self.fr.ctor_args): raise Unsupported('inherited constructor')
                    self.ctor_body(ref,bt,f,list(self.fr.ctor_args)); return
                if f is None:
                    if m['fn'].get('default'): self.implicit_default(ref,bt.base); return
                    if m['fn'].get('copy') or m['fn'].get('move'):
                        o=self.ev(m['args'][0]); self.copy_obj(ref,o.ref,bt.base); return
                    raise Unsupported('base constructor %s'%m['fn']['qn'])
                self.ctor_body(ref,bt,f,self.bind_args(m['fn'],m.get('args',[]),m)); return
            raise Unsupported('base init %s'%m['k'])
        k=self.rk(bt)
        if k in('str','vec','map'):
            v=self.rv(e); HeapLV('cell.'+bt.base,ref,bt,self.sort(bt)).put(self,v)
    def run_ctor_deleg(self, ref, ty, m):
        f=self.P.fns.get(m['fn']['id'])
        if f is None: raise Unsupported('delegating constructor')
        # same object: virtual bases are initialised once, by the target constructor
        self.ctor_body(ref,ty,f,self.bind_args(m['fn'],m.get('args',[]),m))
    # ---------------------------------------------------------------- calls
    def bind_args(self, fn, nodes, n):
        pts=[self.fr.tu.types[t] for t in fn['ptypes']]
        out=[]
        for i,a in enumerate(nodes):
            pt=pts[i] if i<len(pts) else None
            out.append(self.arg(a,pt))
        return out
    def arg(self, a, pt):
        if pt is not None and pt.k=='ref':
            x=self.ev(a)
            if not isinstance(x,(LV,Rec)) : x=TmpLV(x,pt.to)
            return x
        x=self.ev(a)
        if isinstance(x,LV): x=x.load(self)
        if pt is not None and z3.is_expr(x):
            try: x=self.convert(x,self.sort(pt))
            except Unsupported: pass
        return x
    def push(self, f, args, this):
        self.frame_n+=1
        fr=Frame(self.frame_n,f,f.tu); fr.this=(this.ref if isinstance(this,Rec) else this) if this is not None else None
        if len(self.frames)>40: raise Unsupported('call depth')
        ps=f.params()
        for (pid,pn,pt),x in itertools.zip_longest(ps,args,fillvalue=None) if len(ps)!=len(args) else zip(ps,args):
            if pt is None or x is None: raise Unsupported('argument count of %s'%f.qn)
            if pt.k=='ref':
                if not isinstance(x,(LV,Rec)): x=TmpLV(x,pt.to)
                fr.vars[pid]=x
            elif isinstance(x,Rec): fr.vars[pid]=x
            else:
                key=('L',fr.n,pid); self.store[key]=x; fr.vars[pid]=StoreLV(key,pt)
        self.frames.append(fr); return fr
    def pop(self, fr):
        while self.frames and self.frames[-1] is not fr: self.frames.pop()
        if self.frames: self.frames.pop()
    def invoke(self, f, this, args):
        """inline the body of a repo function"""
        if f.d.get('n')=='__invoke' and f.d.get('lambda'):      # static invoker of a captureless lambda: runs its call operator
            fs=[g for g in self.P.fns.values() if g.d is not None and g.d.get('lambda')==f.d['lambda'] and g.d.get('n')=='operator()' and g.d.get('body') and g.d['id'].rsplit('@',1)[-1]==f.d['id'].rsplit('@',1)[-1]]
            if len(fs)!=1: raise Unsupported('static invoker of a lambda (%d call operators)'%len(fs))
            f=fs[0]; this=None
        if sum(1 for x in self.frames if x.fn is not None and x.fn.id==f.id)>=self.cfg.get('rec_depth',1):
            raise Unsupported('recursive call of %s without contract'%f.qn)
        self.inlined.add(f.sqn)
        ln=self.line; ret=f.ret()
        fr=self.push(f,args,this)
        if 'lambda' in f.d and isinstance(this,Lambda): fr.parent=None
        try:
            self.exec_body(f.d['body']); r=None
        except ReturnExc as e: r=e.v
        finally: 
            self.pop(fr); self.line=ln
        if ret.k=='ref':
            return r
        if isinstance(r,LV): r=r.load(self)
        if z3.is_expr(r) and ret.k not in('void',):
            try: r=self.convert(r,self.sort(ret))
            except Unsupported: pass
        return r if r is not None else IntVal(0)
    def invoke_lambda(self, lam, args):
        f=lam.fn
        if f is None: raise Unsupported('generic lambda')
        fr=self.push(f,args,lam.this); self.inlined.add('lambda@'+f.loc)
        for k,v in lam.caps.items(): fr.vars[k]=v
        ln=self.line
        try: self.exec_body(f.d['body']); r=None
        except ReturnExc as e: r=e.v
        finally: self.pop(fr); self.line=ln
        ret=f.ret()
        if ret.k!='ref' and isinstance(r,LV): r=r.load(self)
        return r if r is not None else IntVal(0)
    def ev_CallExpr(self,n):
        fn=n.get('fn')
        if fn is None: return self.indirect(n)
        return self.call(n,fn,None,n['args'])
    def ev_CXXMemberCallExpr(self,n):
        fn=n.get('fn'); cal=n['callee']
        if fn is None: return self.indirect(n)
        m=cal
        while m['k']!='MemberExpr': m=m['c'][0]
        b=m['c'][0]
        if m['arrow']: 
            this=('arrow',b)
        else: this=('dot',b)
        virt=fn.get('virtual') and not m.get('qual')
        return self.call(n,fn,this,n['args'],virt)
    def ev_CXXOperatorCallExpr(self,n):
        fn=n.get('fn')
        if fn is None: return self.indirect(n)
        if fn.get('rec') is not None and not fn.get('static'):
            return self.call(n,fn,('dot',n['args'][0]),n['args'][1:],fn.get('virtual'))
        return self.call(n,fn,None,n['args'])
    def this_of(self, this):
        """evaluates the implicit object argument to a glvalue (LV or Rec)"""
        if this is None: return None
        k,b=this
        if k=='dot':
            x=self.ev(b)
            if isinstance(x,(LV,Rec)): return x
            return TmpLV(x,self.T(b)) if not isinstance(x,(Lambda,)) else x
        v=self.rv(b); return self.deref(v,self.T(b).to)
    def call(self, n, fn, this, args, virt=False):
        sqn=strip_targs(fn['qn'])
        h=self.cfg.get('overrides',{}).get(sqn)
        if h: return h(self,n,fn,this,args)
        con=self.contracts.get(sqn)
        if con and con.use(self,fn):
            t=self.this_of(this)
            a=self.bind_args(fn,args,n)
            self.line=n.get('l',self.line)
            return con.apply(self,n,fn,t,a)
        h=self.stl.get(sqn)
        if h: return h(self,n,fn,this,args)
        if sqn.endswith('::operator()') and this is not None:
            t=self.this_of(this); t=self.val(t) if isinstance(t,LV) else t
            if isinstance(t,Lambda): return self.invoke_lambda(t,self.bind_args(fn,args,n))
        f=self.P.fns.get(fn['id'])
        if (fn.get('copyassign') or fn.get('moveassign')) and 'rec' in fn and sqn.endswith('::operator=') and self.rk(self.fr.tu.types[fn['rec']]) in('tbl','jv'):
            t=self.this_of(this); self.assign(t,self.val(self.ev(args[0]))); return t
        if f is not None and f.d is not None and f.d.get('body') is not None:
            t=self.this_of(this) if this is not None and not fn.get('static') else (self.this_of(this) and None if this else None)
            if virt: f=self.dispatch(f,fn,t)
            a=self.bind_args(fn,args,n)
            return self.invoke(f,t,a)
        if f is not None and fn.get('copyassign') or fn.get('moveassign'):
            t=self.this_of(this); o=self.ev(args[0])
            rt=self.fr.tu.types[fn['rec']]
            if isinstance(t,Rec): self.copy_obj(t.ref,o.ref,rt.base); return t
            self.assign(t,self.val(o)); return t
        raise Unsupported('call of %s'%sqn)
    def overriders(self, fid):
        m=getattr(self.P,'_ovr',None)
        if m is None:
            m={}; 
            for rn,r in self.P.recs.items():
                for id,v in (r.get('virt') or {}).items():
                    for o in v['over']: m.setdefault(o,set()).add(id)
            self.P._ovr=m
        out=set(); st=[fid]
        while st:
            x=st.pop()
            for y in m.get(x,()): 
                if y not in out: out.add(y); st.append(y)
        return out
    def dispatch(self, f, fn, t):
        """virtual call: the exact class if known, else it must be unambiguous"""
        ov=self.overriders(f.id)
        if not ov: return f
        if isinstance(t,Rec):
            ex=self.exact.get(t.ref.get_id())
            if ex is None:
                ex=self.cfg.get('dyntype',{}).get(strip_targs(fn['qn']).rsplit('::',1)[0])
                if ex is not None: self.trust('dynamic type of %s objects is %s in this verification task'%(strip_targs(fn['qn']).rsplit('::',1)[0],ex))
            if ex is not None:
                cand=[]
                for b in self.P.bases_of(ex):
                    for id in (self.P.recs.get(b,{}).get('virt') or {}):
                        if id==f.id or id in ov: cand.append(id)
                # most derived: not overridden by another candidate
                best=[c for c in cand if not (self.overriders(c) & set(cand))]
                best=list(dict.fromkeys(best))
                if len(best)==1 and best[0] in self.P.fns: return self.P.fns[best[0]]
        if self.cfg.get('virtual_base_only'):
            return f
        raise Unsupported('virtual call of %s (%d overriders)'%(fn['qn'],len(ov)))
    def slot(self, idx, which='JNINativeInterface'):
        rn=self.cfg.get('ReturnNull')
        if rn is not None: return self.P.slots(rn)[idx]
        a,b=self.P.slots(False)[idx],self.P.slots(True)[idx]
        if a is b: return a
        return b if self.branch(Const('ReturnNullTable',B)) else a
    def indirect(self, n):
        """call through a function pointer"""
        c=n['callee']
        m=c
        while m['k'] in('ImplicitCastExpr','ParenExpr') : m=m['c'][0]
        if m['k']=='MemberExpr' and m.get('frec','').startswith('JNINativeInterface'):
            # evaluate the table pointer for its null checks
            b=m['c'][0]; 
            if m['arrow']:
                bv=self.rv(b); self.deref(bv,self.T(b).to)
            t=b
            while t['k'] in('ImplicitCastExpr','ParenExpr','MaterializeTemporaryExpr','ExprWithCleanups','CXXBindTemporaryExpr') : t=t['c'][0]
            if t['k'] in('CallExpr','CXXMemberCallExpr') and (t.get('fn') or {}).get('qn')=='jnivm::VM::GetNativeInterfaceTemplate' and t['fn'].get('args'):
                rn=t['fn']['args'][0].get('v')=='1'; f=self.P.slots(rn)[m['idx']]; args=[self.arg(a,t) for a,t in zip(n['args'],[p[2] for p in f.params()])]; h=self.cfg.get('template_call')
                return h(self,n,rn,m['field'],f,args) if h else self.call_fn(f,args,n)
            if not m['arrow'] and self.cfg.get('template_call'):
                x=self.fn_of(self.rv(c))
                if not isinstance(x,FnPtr): raise Unsupported('call through a copy of the function table')
                args=[self.arg(a,t) for a,t in zip(n['args'],[p[2] for p in x.fn.params()])]
                for rn in(True,False):
                    if x.fn is self.P.slots(rn)[m['idx']]: return self.cfg['template_call'](self,n,rn,m['field'],x.fn,args)
                return self.call_fn(x.fn,args,n)
            f=self.slot(m['idx'])
            self.trust('JNI function-table entries hold the functions of the built-in table (no override installed)')
            args=[self.arg(a,t) for a,t in zip(n['args'],[p[2] for p in f.params()])]
            return self.call_fn(f,args,n)
        if m['k']=='MemberExpr' and m.get('frec','').startswith('JNIInvokeInterface'):
            x=self.fn_of(self.rv(c))
            if isinstance(x,FnPtr): return self.call_fn(x.fn,[self.arg(a,t[2]) for a,t in zip(n['args'],x.fn.params())],n)
            if isinstance(x,Lambda): return self.invoke_lambda(x,[self.arg(a,None) for a in n['args']])
            raise Unsupported('call through the invocation table')
        if m['k']=='BinaryOperator' and m['op'] in('->*','.*'):
            o,x,mt=self.memptr(m); h=self.cfg.get('indirect')
            if h is None: raise Unsupported('call of a member function pointer')
            return h(self,n,x,[o]+[self.ev(a) for a in n['args']])
        x=self.rv(c)
        if isinstance(x,FnPtr): 
            pts=x.fn.params() if hasattr(x.fn,'params') else []
            args=[self.arg(a,t[2]) for a,t in zip(n['args'],pts)]
            return self.call_fn(x.fn,args,n)
        if isinstance(x,Lambda): return self.invoke_lambda(x,[self.arg(a,None) for a in n['args']])
        if z3.is_expr(x) and x.sort()==I:
            h=self.cfg.get('indirect')
            if h: return h(self,n,x,[self.ev(a) for a in n['args']])
        raise Unsupported('indirect call')
    def call_fn(self, f, args, n, this=None):
        con=self.contracts.get(f.sqn)
        if con and con.use(self,f.d or {}): return con.apply(self,n,f.d,this,args)
        if f.d is None or f.d.get('body') is None: raise Unsupported('call of %s'%f.qn)
        return self.invoke(f,this,args)
    # ---------------------------------------------------------------- statements
    def exec_body(self, b):
        if b['k']=='CXXTryStmt': self.exec(b)
        else: self.exec(b)
    def exec(self, n):
        if n is None: return
        if n.get('l'): self.line=n['l']
        m=getattr(self,'st_'+n['k'],None)
        if m: m(n)
        else: self.ev(n)
    def st_NullStmt(self,n): pass
    def st_CompoundStmt(self,n): self.scope([lambda s=s: self.exec(s) for s in n.get('c',[])])
    def scope(self, thunks):
        fr=self.fr; mark=len(fr.dtors)
        try:
            for t in thunks: t()
        except (ReturnExc,BreakExc,ContinueExc,CppThrow):
            self.unwind(fr,mark); raise
        self.unwind(fr,mark)
    def unwind(self, fr, mark):
        while len(fr.dtors)>mark:
            d=fr.dtors.pop(); d()
    def st_DeclStmt(self,n):
        for d in n['decls']:
            if 'other' in d: continue
            self.decl(d)
    def decl(self, d):
        fr=self.fr; ty=fr.tu.types[d['t']]
        if d.get('l'): self.line=d['l']
        if d.get('static'):
            key=('S',fr.fn.id,d['id'])
            if key not in self.store: self.store[key]=self.fresh_of(ty,'static')
            fr.vars[d['id']]=StoreLV(key,ty); return
        if ty.k=='ref':
            x=self.ev(d['init'])
            if not isinstance(x,(LV,Rec)): 
                x=TmpLV(x,ty.to)
                if z3.is_expr(x.v):
                    key=('L',fr.n,d['id']); self.store[key]=x.v; x=StoreLV(key,ty.to)
            fr.vars[d['id']]=x; return
        if ty.k=='arr':
            if ty.to.base=='__va_list_tag':
                key=('L',fr.n,d['id']); self.store[key]=VaList(None,None); fr.vars[d['id']]=StoreLV(key,ty); return
            so=self.sort(ty.to); b=self.new_block(IntVal(ty.n)); mk=self.memkey(ty.to)
            blk=self.fresh(z3.ArraySort(I,so),'arr')
            if 'init' in d and d['init'] is not None:
                di=d['init']
                while di['k']=='ExprWithCleanups': di=di['c'][0]
                if di['k']=='InitListExpr':
                    blk=z3.K(I,self.zero(so))
                    for i,c in enumerate(di['c']): blk=Store(blk,IntVal(i),self.convert(self.rv(c),so))
                elif di['k']=='StringLiteral':
                    blk=z3.K(I,self.zero(so))
                    for i,c in enumerate(di['bytes']): blk=Store(blk,IntVal(i),IntVal(c))
                elif di['k'] not in('CXXConstructExpr','ImplicitValueInitExpr'): raise Unsupported('array initializer '+di['k'])
            self.store[('M',mk)]=Store(self.mem(mk,so),b,blk); self.touched('mem.'+mk,b)
            key=('L',fr.n,d['id']); self.store[key]=Ptr.mkp(b,IntVal(0)); fr.vars[d['id']]=StoreLV(key,ty); return
        if ty.k=='rec':
            k=self.rk(ty)
            if k=='guard': self.guard(d,ty); return
            if k=='obj':
                if 'init' not in d: r=self.new_ref(ty.base); self.implicit_default(r,ty.base); x=Rec(r,ty)
                else: x=self.ev(d['init'])
                if isinstance(x,LV): x=x.load(self)
                if not isinstance(x,Rec): raise Unsupported('local object %s'%ty.s)
                fr.vars[d['id']]=x
                self.add_dtor(x,ty); return
            if k=='lambda':
                fr.vars[d['id']]=TmpLV(self.rv(d['init']),ty); return
            x=self.rv(d['init']) if d.get('init') else self.default(ty)
            key=('L',fr.n,d['id'])
            if z3.is_expr(x):
                try: x=self.convert(x,self.sort(ty))
                except Unsupported: pass
            if isinstance(x,Lambda) and k=='int': x=self.lam_token(x)
            if isinstance(x,FnPtr) and k=='int': x=self.fnid(x)
            self.store[key]=x; fr.vars[d['id']]=StoreLV(key,ty)
            if self.owns(ty): lv=StoreLV(key,ty); fr.dtors.append(lambda: self.drop(lv.load(self),ty))
            return
        key=('L',fr.n,d['id'])
        if d.get('init'):
            x=self.rv(d['init'])
            if isinstance(x,Rec): x=x.ref
            if z3.is_expr(x): x=self.convert(x,self.sort(ty))
            self.store[key]=x
        else: self.store[key]=self.fresh_of(ty,'uninit')
        fr.vars[d['id']]=StoreLV(key,ty)
    def add_dtor(self, x, ty):
        if self.has_dtor(ty.base): self.fr.dtors.append(lambda: self.destroy(x.ref,ty.base))
    def owns(self, ty):
        """a unique_ptr to an object with a destructor of its own: the class it owns"""
        if ty is None or ty.k!='rec' or strip_targs(ty.tmpl or ty.base)!='std::unique_ptr' or not ty.args or ty.args[0].k!='rec': return None
        return ty.args[0].base if self.has_dtor(ty.args[0].base) else None
    def owns_all(self, ty):
        """a container of such pointers"""
        if ty is None or ty.k!='rec' or not ty.args or not strip_targs(ty.tmpl or ty.base).startswith('std::'): return None
        a=ty.args[1] if 'map' in strip_targs(ty.tmpl or ty.base) and len(ty.args)>1 else ty.args[0]
        return self.owns(a) if hasattr(a,'k') else None
    def drop(self, v, ty):
        """end of the lifetime of a unique_ptr"""
        rec=self.owns(ty)
        if rec is None or self.is_null(z3.simplify(v)): return
        if self.branch(v!=0): self.destroy(v,rec)
    def drop_all(self, v, ty):
        """end of the lifetime of a container of such pointers: the standard library destroys every element once"""
        rec=self.owns_all(ty)
        if rec is None: return
        h=self.cfg.get('drop_all')
        if h is None: raise Unsupported('destruction of a container of owning pointers')
        h(self,v,ty,rec)
    def own_dtor(self, rec):
        r=self.P.recs.get(rec)
        f=self.P.fns.get(r.get('dtor')) if r and r.get('repo') and r.get('dtor') else None
        return f if f is not None and f.d is not None and f.d.get('body') and f.d['body'].get('c') else None
    def parts(self, rec):
        """members of class type and base classes, in order of construction"""
        r=self.P.recs.get(rec)
        if not r or not r.get('repo'): return []
        out=[('b',b['t'].base) for b in r.get('bases') or []]
        for f in r.get('fields') or []:
            if f['t'].k!='rec': continue
            if self.P.recs.get(f['t'].base,{}).get('repo') and self.rk(f['t'])=='obj': out.append(('f',f['n'],f['t'].base))
            elif f['t'].base.startswith('std::') and f['t'].args and (self.owns(f['t']) or self.owns_all(f['t'])): out.append(('o',f['n'],f['t']))
        return out
    def has_dtor(self, rec): return self.own_dtor(rec) is not None or any(p[0]=='o' or self.has_dtor(p[-1]) for p in self.parts(rec))
    def destroy(self, ref, rec):
        """the destructor of rec, then those of its members and bases in reverse order"""
        f=self.own_dtor(rec)
        if f is not None: self.invoke(f,Rec(ref,prog_rec(self,rec)),[])
        for p in reversed(self.parts(rec)):
            if p[0]=='o':
                v=HeapLV(rec+'.'+p[1],ref,p[2],self.sort(p[2])).load(self); self.drop(v,p[2]) if self.owns(p[2]) else self.drop_all(v,p[2])
            elif self.has_dtor(p[-1]): self.destroy(self.subref(rec,p[1],ref) if p[0]=='f' else ref,p[-1])
    def guard(self, d, ty):
        fr=self.fr
        m=d['init']
        while m['k'] in('ExprWithCleanups','ImplicitCastExpr','MaterializeTemporaryExpr'): m=m['c'][0]
        args=m.get('args',[]) or m.get('c',[])
        if len(args)!=1: raise Unsupported('lock guard with %d arguments'%len(args))
        mx=self.ev(args[0])
        if not isinstance(mx,Rec): raise Unsupported('mutex glvalue')
        self.lock(mx.ref,ty.args[0].base)
        fr.vars[d['id']]=Opaque('guard')
        fr.dtors.append(lambda: self.unlock(mx.ref,ty.args[0].base))
    def lock(self, ref, kind):
        h=self.ghost('held',z3.ArraySort(I,I))
        if kind=='std::mutex' and self.cfg.get('check_locks'): self.oblige(Select(h,ref)==0,'deadlock','non-recursive mutex is not already held')
        self.set_ghost('held',Store(h,ref,Select(h,ref)+1)); self.touched('$held',ref)
    def unlock(self, ref, kind):
        h=self.ghost('held',z3.ArraySort(I,I))
        if self.cfg.get('check_locks'): self.oblige(Select(h,ref)>0,'unlock','mutex is held when released')
        self.set_ghost('held',Store(h,ref,Select(h,ref)-1)); self.touched('$held',ref)
    def st_IfStmt(self,n):
        def go():
            if n.get('init'): self.exec(n['init'])
            if n.get('cvar'): self.decl(n['cvar'])
            if self.branch(self.truth(self.rv(n['cond']))): self.exec(n['then'])
            elif n.get('else'): self.exec(n['else'])
        self.scope([go])
    def st_ReturnStmt(self,n):
        c=n.get('c') or []
        if c and c[0] is not None:
            x=self.ev(c[0])
            ret=self.fr.fn.ret() if self.fr.fn is not None and self.fr.fn.d else None
            if ret is None or ret.k!='ref':
                if isinstance(x,LV): x=x.load(self)
            raise ReturnExc(x)
        raise ReturnExc(None)
    def st_BreakStmt(self,n): raise BreakExc()
    def st_ContinueStmt(self,n): raise ContinueExc()
    def st_SwitchStmt(self,n):
        def go():
            if n.get('init'): self.exec(n['init'])
            if n.get('cvar'): self.decl(n['cvar'])
            v=self.toint(self.rv(n['cond']))
            body=n['body']
            if body['k']!='CompoundStmt': raise Unsupported('switch body')
            flat=[]   # (labels, stmt)
            for s in body['c']:
                labs=[]
                while s is not None and s['k'] in('CaseStmt','DefaultStmt'):
                    labs.append(None if s['k']=='DefaultStmt' else s['lhs']); 
                    if s.get('rhs'): raise Unsupported('case range')
                    s=s['sub']
                flat.append((labs,s))
            start=None; dflt=None
            for i,(labs,s) in enumerate(flat):
                for l in labs:
                    if l is None: dflt=i
                    elif start is None and self.branch(v==self.toint(self.rv(l))): start=i
                if start is not None: break
            if start is None:
                # default may stand before later cases
                for i,(labs,s) in enumerate(flat):
                    if None in labs: dflt=i
                start=dflt
            if start is None: return
            try: self.scope([lambda s=s: self.exec(s) for labs,s in flat[start:]])
            except BreakExc: pass
        self.scope([go])
    def st_CXXTryStmt(self,n):
        try: self.exec(n['body'])
        except CppThrow as e:
            for h in n['handlers']:
                if self.catches(h,e):
                    self.cur_exc.append(e)
                    try:
                        def go():
                            if h.get('var') is not None and h['var'].get('id') is not None:
                                vt=self.fr.tu.types[h['var']['t']]
                                if vt.k=='ref': vt=vt.to
                                v=e.val
                                if isinstance(v,(Opaque,type(None))):
                                    v=Rec(e.ref,vt) if vt.k=='rec' and self.rk(vt)=='obj' else TmpLV(self.fresh_of(vt,'exc'),vt)
                                elif not isinstance(v,(LV,Rec)): v=TmpLV(v,vt)
                                self.fr.vars[h['var']['id']]=v
                            self.exec(h['body'])
                        self.scope([go])
                    finally: self.cur_exc.pop()
                    return
            raise
    def catches(self, h, e):
        if h.get('all'): return True
        ct=self.fr.tu.types[h['ct']]
        if ct.k=='ref': ct=ct.to
        if e.ty is None:
            return self.branch(func('excisa_'+ct.base,I,B)(e.ref))
        if ct.base==e.ty: return True
        std={'std::runtime_error':['std::exception'],'std::invalid_argument':['std::logic_error','std::exception'],'std::out_of_range':['std::logic_error','std::exception'],'std::logic_error':['std::exception'],'std::bad_array_new_length':['std::bad_alloc','std::exception'],'std::bad_weak_ptr':['std::exception'],'std::bad_function_call':['std::exception']}
        if ct.base in std.get(e.ty,[]): return True
        return ct.base in self.P.bases_of(e.ty)
    # ---------------------------------------------------------------- loops
    def st_WhileStmt(self,n): self.loop(n,n.get('cond'),None,n['body'],cvar=n.get('cvar'))
    def st_ForStmt(self,n):
        def go():
            if n.get('init'): self.exec(n['init'])
            self.loop(n,n.get('cond'),n.get('inc'),n['body'],cvar=n.get('cvar'))
        self.scope([go])
    def st_DoStmt(self,n):
        # body once, then while
        self.loop(n,n['cond'],None,n['body'],dowhile=True)
    def st_CXXForRangeStmt(self,n):
        def go():
            fr=self.fr
            r=self.ev(n['range']); rt=self.T(n,'rt')
            if isinstance(r,Rec): raise Unsupported('range-for over object')
            if z3.is_expr(r):
                key=('R',fr.n,n['l'],self.fresh_n); self.fresh_n+=1; self.store[key]=r; r=StoreLV(key,rt)
            if isinstance(r,TmpLV):
                key=('R',fr.n,n['l'],self.fresh_n); self.fresh_n+=1; self.store[key]=r.v; r=StoreLV(key,r.ty)
            t=r.ty.to if r.ty.k=='ref' else r.ty
            k=self.rk(t)
            rev=strip_targs(t.tmpl or t.base)=='std::forward_list'
            if k=='vec':
                ik=('I',fr.n,n['l']); self.store[ik]=IntVal(0)
                def cond():
                    v=r.load(self); return self.store[ik]<v.sort().len(v)
                def enter():
                    v=r.load(self); so=v.sort(); i=self.store[ik]
                    e=ElemLV(r,z3.simplify(i if not rev else so.len(v)-1-i),self.elemty(t))
                    self.bind_loop_var(n['lvar'],e)
                def inc(): self.store[ik]=z3.simplify(self.store[ik]+1)
                self.loop(n,cond,inc,n['body'],enter=enter,index=(ik,r,rev))
            elif k=='map':
                # iteration visits every key once; modelled by the set of visited keys
                so=self.sort(t); vk=('I',fr.n,n['l']); self.store[vk]=z3.K(so.kk,BoolVal(False))
                cur=[None]
                def cond():
                    v=r.load(self); kx=self.fresh(so.kk,'key'); cur[0]=kx
                    # either some unvisited key remains (kx) or none
                    more=self.fresh(B,'more'); q=Const('q',so.kk)
                    self.assume(Implies(more,And(Select(so.dom(v),kx),Not(Select(self.store[vk],kx)))))
                    self.assume(Implies(Not(more),ForAll([q],Implies(Select(so.dom(v),q),Select(self.store[vk],q)))))
                    return more
                def enter():
                    self.store[vk]=Store(self.store[vk],cur[0],BoolVal(True))
                    e=PyPair(self,r,cur[0],t)
                    self.bind_loop_var(n['lvar'],e)
                self.loop(n,cond,lambda: None,n['body'],enter=enter,index=(vk,r,False))
            else: raise Unsupported('range-for over %s'%t.s)
        self.scope([go])
    def bind_loop_var(self, d, e):
        fr=self.fr; ty=fr.tu.types[d['t']]
        if ty.k=='ref' or isinstance(e,PyPair): fr.vars[d['id']]=e
        else:
            key=('L',fr.n,d['id']); self.store[key]=e.load(self); fr.vars[d['id']]=StoreLV(key,ty)
    def loop_key(self, n):
        fr=self.fr
        pp=tuple(t[0] for t in self.trail[:self.pos]) if self.cfg.get('loops_per_path') else ()
        return (tuple((f.fn.id if f.fn else '') for f in self.frames), n.get('l'), id(n))+pp
    def loop(self, n, cond, inc, body, cvar=None, enter=None, dowhile=False, index=None):
        key=self.loop_key(n)
        info=self.loops.get(key)
        if info is None: info=self.loops[key]=LoopInfo(); info.pre=self.pos if self.cfg.get('loops_per_path') else None
        ev_c=(lambda: self.truth(self.rv(cond))) if isinstance(cond,dict) else (cond or (lambda: BoolVal(True)))
        def do_inc():
            if inc is None: return
            if callable(inc): inc()
            else: self.ev(inc)
        def do_body():
            if enter: enter()
            self.exec(body)
        if dowhile and isinstance(cond,dict) and str(cond.get('cv')) in('0','False','false'):
            try: do_body()
            except (ContinueExc,BreakExc): pass
            return
        # first encounter: assume nothing is modified; discover
        if self.cfg.get('loop_hook'): self.cfg['loop_hook'](self,'pre')
        ent=dict(self.store); ent_alloc=self.alloc; head_serial=self.fresh_n
        cands=self.candidates(info,ent,n,index,ent_alloc)
        live=[c for c in cands if c not in info.dead]
        self.inv_check(info,cands,live,'entry')
        # havoc
        self.havoc(info,ent,ent_alloc,head_serial,cands,live)
        headserial2=self.fresh_n
        for c in live: self.assume(cands[c](self))
        if self.cfg.get('loop_hook'): self.cfg['loop_hook'](self,'head')
        head=dict(self.store); head_alloc=self.alloc
        touch={}; self.touch.append(touch)
        self.in_loop.append(key)
        def leave():
            if touch in self.touch: self.touch.remove(touch)
            if key in self.in_loop: self.in_loop.remove(key)
        try:
            if cvar: self.decl(cvar)
            if not dowhile and not self.branch(ev_c()):
                leave(); return
            try:
                do_body()
            except ContinueExc: pass
            except BreakExc:
                leave(); return
            if dowhile and not self.branch(ev_c()):
                leave(); return
            do_inc()
        except (ReturnExc,CppThrow):
            leave(); raise
        # back edge
        if self.cfg.get('loop_hook'): self.cfg['loop_hook'](self,'edge')
        self.discover(info,ent,head,touch,head_serial)
        self.variant(key,n,head)
        self.inv_check(info,cands,live,'preserved')
        leave()
        raise PathEnd()
    def variant(self, key, n, head):
        h=self.cfg.get('variant')
        if h: h(self,key,n,head)
    def restart(self, info):
        if getattr(info,'pre',None) is None: self.changed=True
        r=Restart(); r.pre=getattr(info,'pre',None); raise r
    def same(self, a, b):
        if a is b: return True
        if z3.is_expr(a) and z3.is_expr(b): return a.eq(b)
        if isinstance(a,Iter) and isinstance(b,Iter): return a.idx.eq(b.idx) and a.lv is b.lv
        if isinstance(a,MapIter) and isinstance(b,MapIter): return a.key.eq(b.key) and a.end.eq(b.end)
        return False
    def discover(self, info, ent, head, touch, serial):
        """add everything the iteration changed to the loop's modified set"""
        new=False
        for k,v in self.store.items():
            if k not in ent and k not in head: 
                if k[0] in('H','M'):
                    # map first used inside the body
                    h=self.init_heap.get(k)
                    if h is not None and not self.same(v,h):
                        new|=self.addmod(info,k,touch,serial)
                continue
            h=head.get(k)
            if h is None: continue
            if not self.same(v,h): new|=self.addmod(info,k,touch,serial)
        if new: self.restart(info)
    def addmod(self, info, k, touch, serial):
        if k[0]=='H' and not k[1].startswith('$') or k[0]=='M':
            name=k[1] if k[0]=='H' else 'mem.'+k[1]
            refs=touch.get(name,[])
            prec=[]; star=not refs or name in self.cfg.get('havoc_all',())
            for r in refs:
                if isinstance(r,str): star=True; continue
                r=z3.simplify(r)
                if max_serial(r)<=serial and not self.depends_alloc(r,serial): prec.append(r)
                else: star=True
            old=info.mod.get(k)
            if star:
                if old=='*': return False
                info.mod[k]='*'; return True
            ser=[r.sexpr() for r in prec]
            if old=='*': return False
            if old is None: info.mod[k]={s:r for s,r in zip(ser,prec)}; return True
            ch=False
            for s,r in zip(ser,prec):
                if s not in old: old[s]=r; ch=True
            return ch
        if k in info.mod: return False
        info.mod[k]='*'; return True
    def depends_alloc(self, r, serial):
        return False
    def havoc(self, info, ent, ent_alloc, serial, cands, live):
        L=set(live)
        if not info.mod: return
        # allocation may have advanced
        na=self.fresh(I,'alloc'); self.assume(na>=self.alloc); 
        if any(v=='*' and k[0] in('H','M') for k,v in info.mod.items()) or True: self.alloc=na
        for k in sorted(info.mod,key=str):
            m=info.mod[k]
            if k[0]=='H' and not k[1].startswith('$') or k[0]=='M':
                cur=self.store.get(k)
                if cur is None: 
                    cur=self.init_heap.get(k)
                    if cur is None: continue   # sort unknown yet: first use will happen inside
                so=cur.sort().range()
                if m=='*':
                    nv=self.fresh(cur.sort(),'hav'); self.store[k]=nv
                    self.cfg_trust=None
                else:
                    v=cur
                    for s in sorted(m): v=Store(v,m[s],self.fresh(so,'hv'))
                    self.store[k]=v
                continue
            if k not in self.store: continue
            self.store[k]=self.havoc_val(self.store[k],k,L)
    def loop_name(self, k):
        if k[0]=='L':
            for f in self.frames:
                if f.n==k[1]:
                    d=len([1 for g in self.frames if g.n<=f.n])
                    return 'v%d_%s'%(d,k[2])
        return '%s_%s'%(k[0],k[-1])
    def havoc_val(self, v, k, L=()):
        if z3.is_expr(v) and v.sort()==Ptr and 'blk(%s) unchanged'%self.loop_name(k) in L:
            return Ptr.mkp(z3.simplify(Ptr.blk(v)),self.fresh(I,'lo'))
        if z3.is_expr(v) and v.sort()==CSs and 'str(%s) unchanged'%self.loop_name(k) in L:
            return CSs.mk(z3.simplify(CSs.s(v)),self.fresh(I,'lo'))
        if z3.is_expr(v) and '%s unchanged'%self.loop_name(k) in L: return v
        if isinstance(v,Iter): return Iter(v.lv,self.fresh(I,'it'),v.rev)
        if isinstance(v,MapIter): return MapIter(v.lv,self.fresh(v.key.sort(),'mk'),self.fresh(B,'me'))
        if isinstance(v,VaList): return v
        if z3.is_expr(v):
            f=self.fresh(v.sort(),'lv')
            ty=self.key_ty(k)
            if ty is not None: self.on_read(f,ty)
            elif v.sort()==CSs: pass
            if k[0]=='I' and v.sort()==I: self.assume(f>=0)
            return f
        raise Unsupported('loop modifies %s'%type(v).__name__)
    def key_ty(self, k):
        if k[0]=='L':
            for f in self.frames:
                if f.n==k[1]:
                    x=f.vars.get(k[2]); return x.ty if isinstance(x,LV) else None
        return None
    def inv_check(self, info, cands, live, what):
        """Houdini step: drop the candidates that do not hold here (obligations of the final pass)"""
        if self.mode!='infer' and not live: return
        fs=[(c,simp(cands[c](self))) for c in live]
        fs=[(c,f) for c,f in fs if not z3.is_true(f)]
        if not fs: return
        key=(tuple(t[0] for t in self.trail[:self.pos]),what,self.loop_sig())
        if self.mode=='check':
            self.seg+=1
            k2=key+(self.seg,)
            if k2 in self.obls: return
            for c,f in fs:
                o=Obl('loop invariant %s: %s'%(what,c),'invariant',self.where())
                t=time.time(); o.status,o.model,o.backend=self.prove(f); o.time=time.time()-t
                if o.status!='proved': o.detail=str(f)[:400]
                self.obls[k2+(c,)]=o; self.order.append(o)
            self.obls[k2]=Obl('','','')
            self.obls[k2].status='proved'
            return
        # fast path: all together
        r,_,_=self.prove_quick(And(*[f for c,f in fs]))
        if r=='proved': return
        drop=[]
        if os.environ.get('LOOPDBG'): print('CHECK',what,self.where(),len(fs),r,len(self.pc),flush=True)
        for c,f in fs:
            t1=time.time(); r,_,_=self.prove_quick(f)
            if r!='proved':
                drop.append(c)
                if os.environ.get('DUMPDROP'):
                    so=z3.Solver(); so.add(*self.pc); so.add(Not(f)); self.ndump=getattr(self,'ndump',0)+1
                    open('%s/%03d_%s.smt2'%(os.environ['DUMPDROP'],self.ndump,re.sub(r'[^a-zA-Z0-9]+','_',what+c)[:80]),'w').write(so.to_smt2())
                if os.environ.get('LOOPDBG'): print('DROP',what,c,r,'%.1f'%(time.time()-t1),flush=True)
                if os.environ.get('DROPDBG') and os.environ['DROPDBG'] in c: print('DROP',what,c,r,'\n',f,'\nPC',*[str(p)[:900] for p in self.pc if "lv!2" in str(p) or "find!" in str(p)],sep='\n  ',flush=True)
        if drop:
            info.dead.update(drop); self.restart(info)
    def loop_sig(self): return len(self.in_loop)
    def prove_quick(self, f):
        self.check_time()
        if self.cfg.get('fresh_ctx') and self.fresh_ctx(f,self.cfg.get('inv_timeout',4000),seeds=(0,1,2,3)): return 'proved',None,'z3'
        t=time.time()
        for k,s in enumerate(self.portfolio(self.cfg.get('inv_timeout',4000))):
            for p in self.pc: s.add(p)
            s.add(Not(f)); r=s.check(); self.stats['queries']+=1
            if r!=z3.unknown or k==(0 if self.cfg.get('fresh_ctx') else 1): break
        self.stats['time']+=time.time()-t
        return ('proved' if r==z3.unsat else 'refuted' if r==z3.sat else 'unknown'),None,'z3'
    # candidate invariants
    def candidates(self, info, ent, n, index, ent_alloc):
        out={}
        mod=info.mod
        ints=[]; ptrs=[]; css=[]; others=[]
        name=self.loop_name
        for k in mod:
            if k[0] in('H','M'): continue
            v=ent.get(k)
            if v is None: continue
            if isinstance(v,Iter): ints.append((k,lambda s,k=k: s.store[k].idx, v.idx))
            elif z3.is_expr(v):
                if v.sort()==I: ints.append((k,lambda s,k=k: s.store[k], v))
                elif v.sort()==Ptr: ptrs.append((k,lambda s,k=k: Ptr.off(s.store[k]), Ptr.off(v))); out['blk(%s) unchanged'%name(k)]=(lambda s,k=k,v=v: Ptr.blk(s.store[k])==Ptr.blk(v))
                elif v.sort()==CSs:
                    css.append((k,lambda s,k=k: CSs.o(s.store[k]), CSs.o(v)))
                    out['str(%s) unchanged'%name(k)]=(lambda s,k=k,v=v: And(Not(CSs.is_null(s.store[k])),CSs.s(s.store[k])==CSs.s(v)))
                    out['off(%s)<=len'%name(k)]=(lambda s,k=k,v=v: CSs.o(s.store[k])<=slen(CSs.s(v)))
                else: others.append((k,v))
                out['%s unchanged'%name(k)]=(lambda s,k=k,v=v: s.store[k]==v)
        nums=ints+ptrs+css
        for k,g,e in nums:
            out['%s>=entry'%name(k)]=(lambda s,g=g,e=e: g(s)>=e)
            out['%s<=entry'%name(k)]=(lambda s,g=g,e=e: g(s)<=e)
            if (k,g,e) in ints: out['%s>=0'%name(k)]=(lambda s,g=g: g(s)>=0)
        for a in range(len(nums)):
            for b in range(a+1,len(nums)):
                ka,ga,ea=nums[a]; kb,gb,eb=nums[b]
                out['%s-%s const'%(name(ka),name(kb))]=(lambda s,ga=ga,gb=gb,ea=ea,eb=eb: ga(s)-ea==gb(s)-eb)
                out['%s+%s const'%(name(ka),name(kb))]=(lambda s,ga=ga,gb=gb,ea=ea,eb=eb: ga(s)-ea==-(gb(s)-eb))
        # bounds against unmodified integers / lengths
        bnds=[]
        for k,v in ent.items():
            if k in mod or k[0] not in('L','C','R'): continue
            if k[0]=='L' and k[1] not in [f.n for f in self.frames]: continue
            if z3.is_expr(v) and v.sort()==I and self.key_ty(k) is not None and self.key_ty(k).k=='int': bnds.append((name(k),(lambda s,v=v: v)))
            elif z3.is_expr(v) and v.sort()==Ptr: bnds.append(('off '+name(k),(lambda s,v=v: Ptr.off(v))))
            elif z3.is_expr(v) and v.sort()==CSs: bnds.append(('off '+name(k),(lambda s,v=v: CSs.o(v))))
            elif isinstance(v,Iter): bnds.append(('it '+name(k),(lambda s,v=v: v.idx)))
        if index is not None and index[0] in mod and ent[index[0]].sort()==I:
            ik,r,rev=index
            out['index<=len']=(lambda s,ik=ik,r=r: s.store[ik]<=(lambda v: v.sort().len(v))(r.load(s)))
        for k,v in list(ent.items()):
            if isinstance(v,Iter) : 
                lv=v.lv
                bnds.append(('len',(lambda s,lv=lv: (lambda x: x.sort().len(x) if x.sort()!=Str else slen(x))(lv.load(s)))))
        for k,g,e in nums:
            for bn,bf in bnds:
                out['%s<=%s'%(name(k),bn)]=(lambda s,g=g,bf=bf: g(s)<=bf(s))
        # containers held in locals / heap cells
        for k in mod:
            if k[0]=='H' and isinstance(mod[k],dict) and k in ent:
                cur=ent[k]
                for sx,r in mod[k].items():
                    e0=Select(cur,r); so=e0.sort()
                    self.cont_cands(out,'%s[%s]'%(k[1],sx[:30]),(lambda s,k=k,r=r: Select(s.store[k],r)),e0,ints+ptrs)
            elif k[0]=='L' and z3.is_expr(ent.get(k)) and ent[k].sort().kind()==z3.Z3_DATATYPE_SORT and ent[k].sort() not in(Ptr,CSs):
                self.cont_cands(out,name(k),(lambda s,k=k: s.store[k]),ent[k],ints+ptrs)
            elif k[0]=='H' and mod[k]=='*' and k in ent and not k[1].startswith('$'):
                cur=ent[k]; q=Int('q')
                out['%s: allocated objects unchanged'%k[1]]=(lambda s,k=k,cur=cur: ForAll([q],Implies(q<=ent_alloc,Select(s.store[k],q)==Select(cur,q)),patterns=[Select(s.store[k],q)]) if not s.store[k].eq(cur) else BoolVal(True))
            elif k[0]=='M' and isinstance(mod[k],dict) and k in ent:
                # elements outside the written window keep their value
                for sx,r in mod[k].items():
                    q=Int('q'); a0=Select(ent[k],r)
                    for kk,g,e in ints+ptrs:
                        out['mem.%s[%s] below entry of %s unchanged'%(k[1],sx[:20],name(kk))]=(lambda s,k=k,r=r,a0=a0,e=e: ForAll([q],Implies(q<e,Select(Select(s.store[k],r),q)==Select(a0,q))))
                        out['mem.%s[%s] from %s on unchanged'%(k[1],sx[:20],name(kk))]=(lambda s,k=k,r=r,a0=a0,g=g: ForAll([q],Implies(q>=g(s),Select(Select(s.store[k],r),q)==Select(a0,q))))
            elif k[0]=='M' and mod[k]=='*' and k in ent:
                cur=ent[k]; q=Int('q')
                out['mem.%s: allocated blocks unchanged'%k[1]]=(lambda s,k=k,cur=cur: ForAll([q],Implies(q<=ent_alloc,Select(s.store[k],q)==Select(cur,q))))
        for t in self.cfg.get('loop_templates',[]):
            for nm,fn in t(self,ent,info,n,index,dict(ints=ints,ptrs=ptrs,css=css,others=others,name=name,alloc=ent_alloc)).items(): out[nm]=fn
        if self.cfg.get('cand_filter'): out={k:v for k,v in out.items() if self.cfg['cand_filter'](k)}
        return out
    def cont_cands(self, out, nm, get, e0, nums):
        so=e0.sort(); q=Int('q')
        if str(so).startswith('Vec_'):
            out['len(%s)>=entry'%nm]=(lambda s: so.len(get(s))>=so.len(e0))
            out['len(%s)<=entry'%nm]=(lambda s: so.len(get(s))<=so.len(e0))
            out['len(%s)>=0'%nm]=(lambda s: so.len(get(s))>=0)
            out['%s: entry prefix unchanged'%nm]=(lambda s: ForAll([q],Implies(And(q>=0,q<so.len(e0)),Select(so.arr(get(s)),q)==Select(so.arr(e0),q))))
            for k,g,e in nums:
                out['len(%s)-%s const'%(nm,k[-1])]=(lambda s,g=g,e=e: so.len(get(s))-so.len(e0)==g(s)-e)
                out['len(%s)+%s const'%(nm,k[-1])]=(lambda s,g=g,e=e: so.len(get(s))-so.len(e0)==e-g(s))
    # ---------------------------------------------------------------- pure sub-evaluation
    def summarize(self, thunk, what='predicate'):
        """all paths of a side-effect free computation, as one formula: returns list of (condition, value)"""
        saved=(self.trail,self.pos,dict(self.store),list(self.pc),self.solver,self.seg,list(self.frames),self.fresh_n,self.alloc,self.line)
        saved2=(set(self.seen_reads),dict(self.isas),dict(self.literals),dict(self.nameds)); kp=self.keyprefix
        self.keyprefix=kp+tuple(t[0] for t in self.trail[:self.pos])+('s',self.seg)
        base=len(self.pc); out=[]
        mode=self.mode
        self.trail=[]; 
        try:
            while True:
                self.pos=0; self.store=dict(saved[2]); self.pc=list(saved[3]); self.seg=0; self.frames=list(saved[6]); self.alloc=saved[8]; self.fresh_n=saved[7]
                self.solver=z3.Solver(); self.solver.set('timeout',3000)
                for p in self.pc:
                    if not hasq(p): self.solver.add(p)
                conds=[]; self._sumconds=conds
                ob=self.branch; 
                def rec(c,why=None):
                    if isinstance(c,bool): return c
                    cs=z3.simplify(c)
                    d=ob(c)
                    if not (z3.is_true(cs) or z3.is_false(cs)): conds.append(cs if d else Not(cs))
                    return d
                self.branch=rec
                try:
                    v=thunk()
                    for k,x in self.store.items():
                        if k[0] in('H','M') and k in saved[2] and not self.same(x,saved[2][k]): raise Unsupported('%s has side effects'%what)
                    out.append((And(*conds) if conds else BoolVal(True),v))
                except CppThrow: raise Unsupported('%s may throw'%what)
                finally: del self.branch
                while self.trail and not self.trail[-1][1]: self.trail.pop()
                if not self.trail: break
                self.trail[-1]=[not self.trail[-1][0],False,1]
        finally:
            st=dict(saved[2])
            # keep lazily created heap symbols
            for k,x in self.store.items():
                if k not in st and k in self.init_heap: st[k]=self.init_heap[k]
            self.trail,self.pos,_,self.pc,self.solver,self.seg,self.frames,self.fresh_n,self.alloc,self.line=saved
            self.store=st; self.seen_reads,self.isas,self.literals,self.nameds=saved2; self.keyprefix=kp; self.seg+=1
        return out

class PyArr: pass
class PyStruct: pass
class PyPair(PyStruct, LV):
    """std::pair<const K,V>& inside a map"""
    def __init__(s, ex, lv, key, mapty): s.ex=ex; s.lv=lv; s.key=key; s.mapty=mapty; s.ty=mapty
    def get(s, f):
        if f=='first': return TmpLV(s.key,s.mapty.args[0])
        return MapValLV(s.lv,s.key,s.mapty.args[1])
    def load(s, ex): return s

import zlib
def hash_str(s): return zlib.crc32(s.encode())
