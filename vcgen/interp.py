"""Symbolic execution of the exported clang AST: generates the proof obligations of one function (callees by contract or inlined,
loops by inferred invariants) and discharges them with SMT."""
import re, time, subprocess, os, tempfile
import z3
from z3 import (And, Or, Not, Implies, If, Select, Store, ForAll, Exists, IntVal, BoolVal, Const, Int, Bool)
from vals import *
from prog import strip_targs, Ty

INT_RECS = {'std::shared_ptr','std::weak_ptr','std::unique_ptr','std::function','std::__exception_ptr::exception_ptr','std::type_index','std::__shared_ptr','std::__shared_ptr_access','std::__weak_ptr','std::thread::id','std::type_info','std::default_delete','std::nullptr_t'}
VEC_RECS = {'std::vector','std::forward_list','std::initializer_list','std::list','std::deque','std::unordered_multimap','std::multimap'}
MULTIMAPS = {'std::unordered_multimap','std::multimap'}     # the sequence of their elements
SET_RECS = {'std::unordered_set','std::set'}
MAP_RECS = {'std::unordered_map','std::map','std::unordered_set','std::set'}
STR_RECS = {'std::basic_string','std::__cxx11::basic_string'}
STREAM_RECS = {'std::basic_stringstream','std::basic_ostringstream','std::basic_ostream','std::basic_iostream','std::__cxx11::basic_stringstream','std::__cxx11::basic_ostringstream'}
TBL_RECS = {'JNINativeInterface','JNIInvokeInterface','JNINativeInterface_','JNIInvokeInterface_'}
VALUE_STRUCTS = {'JNINativeMethod'}
MUTEX_RECS = {'std::mutex','std::recursive_mutex'}
GUARDS = {'std::lock_guard','std::unique_lock'}

class Obl:
    __slots__=('name','kind','loc','status','time','backend','detail','model')
    def __init__(s,name,kind,loc): s.name=name; s.kind=kind; s.loc=loc; s.status=None; s.time=0; s.backend=''; s.detail=''; s.model=None

def simp(f):
    # simplification would rewrite the triggers of quantifiers
    return f if hasq(f) else z3.simplify(f)
_raw=[getattr(z3,n).__defaults__[0].f for n in('Z3_get_ast_kind','Z3_get_ast_id','Z3_get_app_num_args','Z3_get_app_arg','Z3_to_app')]
_qf=set(); _hq=set(); _qkeep=[]
def hasq(f):
    i0=f.get_id()
    if i0 in _qf: return False
    if i0 in _hq: return True
    seen=set(); ctx=f.ctx_ref(); kind,gid,na,ga,toapp=_raw
    st=[f.as_ast()]; res=False
    while st:
        x=st.pop(); i=gid(ctx,x)
        if i in seen or i in _qf: continue
        seen.add(i); k=kind(ctx,x)
        if k==3: res=True; break
        if k==1:
            ap=toapp(ctx,x)
            for j in range(na(ctx,ap)): st.append(ga(ctx,ap,j))
    _qkeep.append(f)
    if res: _hq.add(i0)
    else: _qf.update(seen)
    return res
_SER=re.compile(r'!(\d+)$')
_mscache={}
def max_serial(e):
    i=e.get_id()
    if i in _mscache and _mscache[i][0].eq(e): return _mscache[i][1]
    m=0
    if z3.is_quantifier(e): m=max_serial(e.body())
    elif z3.is_app(e):
        if e.num_args()==0:
            if e.decl().kind()==z3.Z3_OP_UNINTERPRETED:
                r=_SER.search(e.decl().name()); m=int(r.group(1)) if r else 0
        else:
            for c in e.children(): m=max(m,max_serial(c))
    _mscache[i]=(e,m); return m

class LoopInfo:
    def __init__(s): s.mod={}; s.dead=set(); s.first=True; s.names=set()

class Exec:
    def __init__(self, prog, cfg=None):
        self.P=prog; self.cfg=cfg or {}
        self.contracts=self.cfg.get('contracts',{})
        self.stl=self.cfg['stl']
        self.loops={}; self.obls={}; self.order=[]
        self.trail=[]; self.keyprefix=(); self.mode='check'; self.stats={'paths':0,'queries':0,'time':0.0}
        self.assumed=set(); self.inlined=set(); self.used_contracts=set(); self.trusted=set()
        self.deadline=None; self.tmo=self.cfg.get('timeout',10000)
        self.changed=False
        self._sortc={}
    # ------------------------------------------------------------------ types
    def rk(self, ty):
        """record kind"""
        t=ty.tmpl or ty.n or ty.base
        t=strip_targs(t)
        t=t.replace('std::__cxx11::','std::')
        if t in INT_RECS: return 'int'
        if t in STR_RECS: return 'str'
        if t in VEC_RECS: return 'vec'
        if t in MAP_RECS: return 'map'
        if t in STREAM_RECS: return 'stream'
        if t in TBL_RECS or ty.base.replace('struct ','') in TBL_RECS: return 'tbl'
        if ty.base=='jvalue': return 'jv'
        if t=='std::pair': return 'struct'
        if ty.base in VALUE_STRUCTS or ty.base in self.cfg.get('value_structs',()): return 'struct'
        if t in MUTEX_RECS: return 'obj'
        if t in GUARDS: return 'guard'
        if t=='__va_list_tag' or ty.base=='__va_list_tag': return 'va'
        if t.endswith('_iterator') or 'iterator' in t or t in('std::__detail::_Node_iterator','std::_Fwd_list_iterator'): return 'iter'
        if ty.lam or t.startswith('lambda@'): return 'lambda'
        return 'obj'
    def sort(self, ty):
        s=self._sortc.get(ty.s)
        if s is None: s=self._sort(ty); self._sortc[ty.s]=s
        return s
    def _sort(self, ty):
        k=ty.k
        if k=='bool': return B
        if k in('int','nullptr','void','func','memptr'): return I
        if k=='float': return F64 if ty.w!=32 else F32
        if k=='ptr':
            to=ty.to
            if to.k=='int' and to.base=='char' and to.const: return CSs
            if to.k in('int','bool','float','ptr'): return Ptr
            if to.k=='rec' and self.rk(to) in('jv','struct','int'): return Ptr
            return I
        if k=='ref': return self.sort(ty.to) 
        if k=='rec':
            r=self.rk(ty)
            if r=='int': return I
            if r=='str' or r=='stream': return Str
            if r=='vec': return VecSort(self.sort(self.elemty(ty)))
            if r=='map' and strip_targs(ty.tmpl or ty.base) in SET_RECS: return MapSort(self.sort(ty.args[0]),B)
            if r=='map': return MapSort(self.sort(ty.args[0]),self.sort(ty.args[1]))
            if r=='tbl': return TBL
            if r=='jv': return JV
            if r=='struct':
                return StructSort(ty.base,[(n,self.sort(t)) for n,t in self.struct_fields(ty)])
            if r=='obj': return I
            raise Unsupported('no sort for %s'%ty.s)
        if k=='arr': raise Unsupported('array value %s'%ty.s)
        raise Unsupported('no sort for %s (%s)'%(ty.s,k))
    def struct_fields(self, ty):
        t=strip_targs(ty.tmpl or ty.base)
        if t=='std::pair': return [('first',ty.args[0]),('second',ty.args[1])]
        r=self.P.recs.get(ty.base)
        if not r or r.get('fields') is None: raise Unsupported('struct %s'%ty.s)
        return [(f['n'],f['t']) for f in r['fields']]
    def isref(self, ty):
        """is a value of this type an object reference (Int >= 0)"""
        return (ty.k=='ptr' and self.sort(ty) is I and ty.to.k!='func') or (ty.k=='rec' and strip_targs(ty.tmpl or ty.base).replace('std::__cxx11::','std::') in('std::shared_ptr','std::weak_ptr','std::unique_ptr'))
    # ------------------------------------------------------------------ state
    def reset(self):
        self.nameds={}
        self.pos=0; self.store={}; self.pc=[]; self.fresh_n=0; self.frames=[]; self.frame_n=0
        self.solver=z3.Solver(); self.solver.set('timeout',3000); self._nq=0
        self.seen_reads=set(); self.keep=[]; self.bits={}; self.exact={}; self.lambdas={}; self.seg=0
        self.isas={}
        self.in_loop=[]; self.touch=[]
        self.cur_exc=[]; self.line=None; self.events=[]
        self.alloc=Int('alloc!0'); self.assume(self.alloc>=1000000)
        self.literals={}; self.ghosts={}
    def fresh(self, sort, hint='v'):
        self.fresh_n+=1
        return Const('%s!%d'%(hint,self.fresh_n), sort)
    def fresh_of(self, ty, hint='v'):
        if ty.k=='ref': ty=ty.to
        v=self.fresh(self.sort(ty),hint); self.on_read(v,ty); return v
    def int_range(self, ty):
        w=ty.w or 32
        if ty.k=='bool': return (0,1)
        return (-(1<<(w-1)),(1<<(w-1))-1) if ty.sg else (0,(1<<w)-1)
    def on_read(self, v, ty):
        if not z3.is_expr(v): return
        i=v.get_id()
        if i in self.seen_reads: return
        self.seen_reads.add(i); self.keep.append(v)
        if z3.is_int_value(v) or z3.is_true(v) or z3.is_false(v): return
        if ty.k=='int':
            lo,hi=self.int_range(ty); self.assume(And(v>=lo,v<=hi))
        elif v.sort()==I and self.isref(ty): 
            self.assume(v<=self.alloc)
            if ty.k=='rec': self.assume(v>=0)
        elif v.sort()==Ptr: self.assume(And(Ptr.blk(v)>=0,Ptr.blk(v)<=self.alloc))
        elif v.sort()==CSs: self.assume(Implies(Not(CSs.is_null(v)),And(CSs.o(v)>=0,CSs.o(v)<=slen(CSs.s(v)),slen(CSs.s(v))>=0)))
        elif v.sort()==Str: self.assume(And(slen(v)>=0, slen(v)<=(1<<62)))
        elif z3.is_expr(v) and ty.k=='rec' and self.rk(ty)=='vec': self.assume(And(v.sort().len(v)>=0,v.sort().len(v)<=(1<<40)))
    def assume(self, f):
        if z3.is_true(f): return
        self.pc.append(f)
        if not hasq(f): self.solver.add(f)
        else: self._nq+=1
    def hmap(self, key, sort):
        k=('H',key)
        if k not in self.store: 
            self.store[k]=Const('H:'+key+'!0', z3.ArraySort(I,sort))
            self.init_heap[k]=self.store[k]
        return self.store[k]
    def mem(self, key, sort):
        k=('M',key)
        if k not in self.store: self.store[k]=Const('M:'+key+'!0', z3.ArraySort(I,z3.ArraySort(I,sort))); self.init_heap[k]=self.store[k]
        return self.store[k]
    init_heap={}
    def ghost(self, name, sort):
        k=('H','$'+name)
        if k not in self.store: self.store[k]=Const('G:'+name+'!0',sort); self.init_heap[k]=self.store[k]
        return self.store[k]
    def set_ghost(self, name, v): self.store[('H','$'+name)]=v
    def touched(self, key, ref):
        for t in self.touch: t.setdefault(key,[]).append(ref)
    def new_ref(self, cls=None):
        # alloc is kept as base + k to stay simple
        r=z3.simplify(self.alloc+1); self.alloc=r
        if cls:
            self.exact[r.get_id()]=cls; self.keep.append(r)
            for c in self.cfg.get('exact_isa',()): self.assume(func('isa_'+c,I,B)(r)==BoolVal(c in self.P.bases_of(cls)))
        return r
    def isa(self, cls, ref):
        i=ref.get_id()
        if i in self.exact: return BoolVal(cls in self.P.bases_of(self.exact[i]))
        f=func('isa_'+cls,I,B); t=f(ref)
        key=(cls,i)
        if key not in self.isas:
            self.isas[key]=ref; self.keep.append(ref)
            # hierarchy: a subclass instance is an instance of every base
            others={c for (c,j) in self.isas if j==i}
            for o in others:
                if o==cls: continue
                if cls in self.P.bases_of(o): self.assume(Implies(func('isa_'+o,I,B)(ref),t))
                elif o in self.P.bases_of(cls): self.assume(Implies(t,func('isa_'+o,I,B)(ref)))
            dj=self.cfg.get('disjoint',[])
            for a in dj:
                for b in dj:
                    if a<b and (cls==a or cls==b):
                        o=b if cls==a else a
                        self.assume(Not(And(t,func('isa_'+o,I,B)(ref))))
            for a,b in self.cfg.get('disjoint_pairs',[]):
                if cls in(a,b):
                    o=b if cls==a else a
                    self.assume(Not(And(t,func('isa_'+o,I,B)(ref))))
        return t
    # ------------------------------------------------------------------ strings
    def lit(self, bs):
        bs=bytes(bs)
        if bs not in self.literals:
            s=Const('lit_%s'%bs.hex(),Str)
            for o,os_ in self.literals.items(): self.assume(s!=os_)
            self.literals[bs]=s
            self.assume(slen(s)==len(bs))
            for i,b in enumerate(bs): self.assume(sat(s,IntVal(i))==(b if b<128 else b-256))
            self.assume(nonul(s) if 0 not in bs else Not(nonul(s)))
            if len(bs)<=4: self.assume(s==(bytestr[len(bs)](*[IntVal(b if b<128 else b-256) for b in bs]) if bs else bytestr[0]()))
        return self.literals[bs]
    def litval(self, s):
        for b,v in self.literals.items():
            if v.eq(s): return b
        return None
    def char_at(self, cs):
        cs=z3.simplify(cs)
        self.oblige(Not(CSs.is_null(cs)),'null-deref','dereference of a null string')
        s=CSs.s(cs); o=z3.simplify(CSs.o(cs)); s=z3.simplify(s)
        self.oblige(And(o>=0,o<=slen(s)),'bounds','read inside the string')
        return self.str_at(s,o)
    def str_at(self, s, o):
        lv=self.litval(s)
        if lv is not None and z3.is_int_value(o):
            k=o.as_long()
            if 0<=k<len(lv): return IntVal(lv[k] if lv[k]<128 else lv[k]-256)
            if k==len(lv): return IntVal(0)
        v=sat(s,o)
        i=v.get_id()
        if i not in self.seen_reads:
            self.seen_reads.add(i); self.keep.append(v)
            self.assume(And(v>=-128,v<=127)); self.assume(sat(s,slen(s))==0)
            self.assume(Implies(And(nonul(s),o>=0,o<slen(s)),v!=0))
        return v
    def named(self, e):
        """a constant equal to e when e contains a case distinction (such terms cannot occur in triggers)"""
        e=z3.simplify(e); st=[e]
        while st:
            x=st.pop()
            if z3.is_app_of(x,z3.Z3_OP_ITE):
                i=('named',e.get_id())
                if i not in self.nameds: self.keep.append(e); self.nameds[i]=self.fresh(e.sort(),'nm'); self.assume(self.nameds[i]==e)
                return self.nameds[i]
            if z3.is_app(x): st.extend(x.children())
        return e
    def named_const(self, e):
        "a constant equal to e"
        e=z3.simplify(e)
        if z3.is_const(e): return e
        i=('namedc',e.get_id())
        if i not in self.nameds: self.keep.append(e); self.nameds[i]=self.fresh(e.sort(),'nm'); self.assume(self.nameds[i]==e)
        return self.nameds[i]
    def mk_sub(self, s, o, n):
        o=self.named(o); n=self.named(n)
        r=sub(s,o,n); i=r.get_id()
        if i not in self.seen_reads:
            self.seen_reads.add(i); self.keep.append(r)
            self.assume(slen(r)==n); k=Int('k')
            self.assume(ForAll([k],Implies(And(k>=0,k<n),sat(r,k)==sat(s,o+k)),patterns=[sat(r,k)]))
            self.assume(Implies(And(o==0,n==slen(s)),r==s)); self.assume(Implies(nonul(s),nonul(r)))
            self.assume(Implies(n==0,r==bytestr[0]())); self.assume(slen(bytestr[0]())==0)
            if self.cfg.get('sub_hook'): self.cfg['sub_hook'](self,s,o,n)
        return r
    def mk_cat(self, a, b):
        la,lb=self.litval(a),self.litval(b)
        if la is not None and lb is not None: return self.lit(la+lb)
        if la==b'': return b
        if lb==b'': return a
        # normalise to the right: (x+y)+z -> x+(y+z)
        if z3.is_app(a) and a.decl().eq(cat): return self.mk_cat(a.arg(0), self.mk_cat(a.arg(1), b))
        if la is not None and z3.is_app(b) and b.decl().eq(cat):
            l2=self.litval(b.arg(0))
            if l2 is not None: return self.mk_cat(self.lit(la+l2),b.arg(1))
        r=cat(a,b); i=r.get_id()
        if i not in self.seen_reads:
            self.seen_reads.add(i); self.keep.append(r)
            self.assume(slen(r)==slen(a)+slen(b)); self.assume(slen(a)>=0); self.assume(slen(b)>=0); k=Int('k')
            
            if not self.cfg.get('opaque_cat'): self.assume(ForAll([k],Implies(And(k>=0,k<slen(r)),sat(r,k)==If(k<slen(a),sat(a,k),sat(b,k-slen(a)))),patterns=[sat(r,k)]))
            self.assume(Implies(slen(a)==0,r==b)); self.assume(Implies(slen(b)==0,r==a))
            self.assume(Implies(And(nonul(a),nonul(b)),nonul(r)))
            # decomposition of a literal prefix/suffix is unique
            self.assume(func('cat_l',Str,I,Str)(r,slen(a))==a); self.assume(func('cat_r',Str,I,Str)(r,slen(a))==b)
        return r
    def cstr(self, cs):
        """the std::string denoted by a C string pointer"""
        cs=z3.simplify(cs)
        s=z3.simplify(CSs.s(cs)); o=z3.simplify(CSs.o(cs))
        self.trust('C strings passed to std::string constructors/comparisons contain no byte before their terminator that is zero (definition of a C string)')
        self.assume(nonul(s))
        if z3.is_int_value(o) and o.as_long()==0: return s
        return If(o==0,s,self.mk_sub(s,o,slen(s)-o))
    def bytes_str(self, vals):
        n=len(vals)
        r=bytestr[n](*vals) if n else bytestr[0]()
        i=r.get_id()
        if i not in self.seen_reads:
            self.seen_reads.add(i); self.keep.append(r); self.assume(slen(r)==n)
            for k,v in enumerate(vals): self.assume(sat(r,IntVal(k))==v)
        return r
    # ------------------------------------------------------------------ control
    def trust(self, s): self.trusted.add(s)
    def check_time(self):
        if self.deadline and time.time()>self.deadline: raise TimeoutError()
    def feasible(self, c):
        self.check_time()
        self.solver.push(); self.solver.add(c)
        t=time.time(); r=self.solver.check(); self.stats['time']+=time.time()-t; self.stats['queries']+=1
        self.solver.pop()
        return r!=z3.unsat
    def must(self, c, quick=False):
        """is c entailed on this path (by quantifier instantiation; a 'no' may be a 'do not know')"""
        if not self.feasible(Not(c)): return True
        s=z3.SimpleSolver(); s.set('timeout',6000 if quick else 9000); s.set('rlimit',1500000 if quick else 4500000); s.set('mbqi',False); s.set('auto_config',False); s.add(*self.pc); s.add(Not(c)); r=s.check()
        if r==z3.unknown and not quick: s=z3.Solver(); s.set('timeout',2000); s.add(*self.pc); s.add(Not(c)); r=s.check()
        return r==z3.unsat
    def branch(self, c, why=None):
        if isinstance(c,bool): return c
        c=z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.pos<len(self.trail):
            d=self.trail[self.pos][0]; self.pos+=1; self.seg=0
            if self.trail[self.pos-1][2] is not None: self.assume(c if d else Not(c))
            self.assume_eq(c,d)
            return d
        ft=self.feasible(c); ff=self.feasible(Not(c)) if ft else True
        if ft and ff: self.trail.append([True,True,1]); d=True
        elif ft: self.trail.append([True,False,1]); d=True
        else: self.trail.append([False,False,1]); d=False
        self.pos+=1; self.seg=0
        self.assume(c if d else Not(c)); self.assume_eq(c,d)
        if len(self.trail)>600: raise Unsupported('too many branches on one path')
        return d
    def assume_eq(self, c, d): pass
    def run_paths(self, body, maxpaths=4000):
        self.trail=[]
        while True:
            self.check_time()
            self.reset(); self.init_heap={}
            try: body()
            except PathEnd: pass
            except Restart as r:
                # invariants kept per path: redo this path from the loop on
                if getattr(r,'pre',None) is None: raise
                del self.trail[r.pre:]; self.restarts=getattr(self,'restarts',0)+1
                if self.restarts>4000: raise Unsupported('invariant inference does not stabilise')
                continue
            self.stats['paths']+=1
            while self.trail and not self.trail[-1][1]: self.trail.pop()
            if not self.trail: break
            self.trail[-1]=[not self.trail[-1][0],False,1]
            if self.stats['paths']>maxpaths: raise Unsupported('more than %d paths'%maxpaths)
    # ------------------------------------------------------------------ proof obligations
    def prove(self, f, tmo=None, extra=()):
        """returns 'proved' | 'refuted' | 'unknown', model"""
        self.check_time()
        f=simp(f)
        if z3.is_true(f): return 'proved',None,'simplify'
        t=time.time()
        r=None
        for s in self.portfolio(tmo or self.tmo):
            for p in self.pc: s.add(p)
            for e in extra: s.add(e)
            s.add(Not(f)); r=s.check(); self.stats['queries']+=1
            if r!=z3.unknown: break
        dt=time.time()-t; self.stats['time']+=dt
        if r==z3.unsat: return 'proved',None,'z3'
        if r==z3.unknown and self.fresh_ctx(f,tmo or self.tmo,extra,(0,1,2)): return 'proved',None,'z3'
        if r==z3.sat: return 'refuted',s.model(),'z3'
        # second opinion
        r2=self.cvc5(s)
        self.stats['time']+=time.time()-t-dt
        if r2=='unsat': return 'proved',None,'cvc5'
        return 'unknown',None,'z3+cvc5'
    def portfolio(self, tmo):
        # instantiation by triggers only (fast when it suffices), the default strategy, model-based instantiation without preprocessing
        s=z3.SimpleSolver(); s.set('timeout',max(1000,tmo//3)); s.set('mbqi',False); s.set('auto_config',False); yield s
        s=z3.Solver(); s.set('timeout',tmo); yield s
        s=z3.SimpleSolver(); s.set('timeout',max(1000,tmo//2)); yield s
    def fresh_ctx(self, f, tmo, extra=(), seeds=(0,)):
        """trigger-only instantiation in fresh solver contexts (term numbering, and with it the instantiation order, differs from the
        long-lived context); bounded by solver resources rather than time, so that the outcome does not depend on the machine"""
        a=z3.Solver(); a.add(*self.pc,*extra,Not(f)); txt=a.to_smt2()
        for sd in seeds:
            t=time.time(); c=z3.Context(); s=z3.SimpleSolver(ctx=c); s.set('timeout',max(4000,2*tmo)); s.set('rlimit',max(1500,tmo)*1500); s.set('mbqi',False); s.set('auto_config',False)
            if sd: s.set('random_seed',sd); s.set('phase_selection',5)
            if sd==2: s.set('qi.eager_threshold',20.0)
            s.from_string(txt); r=s.check(); self.stats['queries']+=1; self.stats['time']+=time.time()-t
            if os.environ.get('RLDBG'): print('RL',sd,r,s.reason_unknown() if r!=z3.unsat else '','%.2f'%(time.time()-t),flush=True)
            if r==z3.unsat: return True
        return False
    def cvc5(self, s):
        if self.cfg.get('nocvc5'): return 'unknown'
        try:
            txt='(set-logic ALL)\n'+s.to_smt2()
            with tempfile.NamedTemporaryFile('w',suffix='.smt2',delete=False) as f: f.write(txt)
            o=subprocess.run(['cvc5','--tlimit=%d'%self.tmo,'--quiet',f.name],stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True,timeout=self.tmo/1000+5).stdout
            os.unlink(f.name)
            return 'unsat' if 'unsat' in o else 'unknown'
        except Exception: return 'unknown'
    def where(self):
        fr=self.frames[-1] if self.frames else None
        return '%s:%s'%(fr.fn.loc.rsplit(':',1)[0] if fr and fr.fn else '?', self.line)
    def oblige(self, f, kind, name, assume=True):
        """obligation at this point; assumed afterwards"""
        f=simp(f) if z3.is_expr(f) else BoolVal(f)
        self.seg+=1
        key=(self.keyprefix,tuple(t[0] for t in self.trail[:self.pos]),self.seg,kind,name,self.where())
        if self.mode=='check' and key not in self.obls:
            o=Obl(name,kind,self.where()); t=time.time()
            o.status,o.model,o.backend=self.prove(f)
            o.time=time.time()-t
            if o.status!='proved': o.detail=str(f)[:600]
            if o.model is not None: o.detail+='\n  model: '+self.describe(o.model)
            self.obls[key]=o; self.order.append(o)
        if assume: self.assume(f)
        if self.mode=='check' and key in self.obls and self.obls[key].status!='proved' and z3.is_false(f): raise PathEnd()
    def describe(self, m):
        try:
            out=[]
            for d in m.decls():
                if d.arity()==0 and not d.name().startswith(('lit_','H:','M:')) and len(out)<40: out.append('%s=%s'%(d.name(),str(m[d])[:60]))
            return ', '.join(sorted(out))
        except Exception: return ''
    # ------------------------------------------------------------------ values
    def val(self, x):
        return x.load(self) if isinstance(x,LV) else x
    def default(self, ty):
        """value-initialised value"""
        if ty.k=='rec':
            r=self.rk(ty)
            if r in('str','stream'): return self.lit(b'')
            if r=='vec':
                so=self.sort(ty); return so.mkv(IntVal(0),z3.K(I,self.zero(so.elem)))
            if r=='map':
                so=self.sort(ty); return so.mkm(z3.K(so.kk,BoolVal(False)),z3.K(so.kk,self.zero(so.vv)))
            if r=='struct':
                so=self.sort(ty); fs=self.struct_fields(ty); return so.mks(*[self.default(t) for n,t in fs])
            if r=='tbl': return z3.K(I,IntVal(0))
            if r=='jv': return Const('jv_zero',JV)
            if r=='int': return IntVal(0)
        return self.zero(self.sort(ty))
    def zero(self, so):
        if so==I: return IntVal(0)
        if so==B: return BoolVal(False)
        if so==Ptr: return PNULL
        if so==CSs: return CSs.null
        if so==F64: return Const('f64_zero',F64)
        if so==F32: return Const('f32_zero',F32)
        if so==Str: return self.lit(b'')
        if so==JV: return Const('jv_zero',JV)
        if so.kind()==z3.Z3_ARRAY_SORT: return z3.K(so.domain(),self.zero(so.range()))
        if so.kind()==z3.Z3_DATATYPE_SORT:
            c=so.constructor(0); return c(*[self.zero(c.domain(i)) for i in range(c.arity())])
        raise Unsupported('zero of %s'%so)
    def jvsel(self, f, so): return func('jv_'+f,JV,so)
    def jv_get(self, jv, f, ty):
        so=self.sort(ty); r=self.jvsel(f,so)(jv)
        if z3.is_app(jv) and jv.num_args()==1 and jv.decl().name()=='mkjv_'+f: return jv.arg(0)
        i=r.get_id()
        if i not in self.seen_reads:
            self.seen_reads.add(i); self.keep.append(r)
            self.assume(self.jvsel(f,so)(Const('jv_zero',JV))==self.zero(so))
            if ty.k=='int':
                lo,hi=self.int_range(ty); self.assume(And(r>=lo,r<=hi))
        return r
    def jv_mk(self, f, x, ty):
        so=self.sort(ty); r=func('mkjv_'+f,so,JV)(x)
        i=r.get_id()
        if i not in self.seen_reads:
            self.seen_reads.add(i); self.keep.append(r); self.assume(self.jvsel(f,so)(r)==x)
        return r
    def truth(self, v):
        if isinstance(v,bool): return BoolVal(v)
        if isinstance(v,(Rec,)): return v.ref!=0
        if isinstance(v,(FnPtr,Lambda,PtrTo)): return BoolVal(True)
        so=v.sort()
        if so==B: return v
        if so==I: return v!=0
        if so==Ptr: return Ptr.blk(v)!=0
        if so==CSs: return Not(CSs.is_null(v))
        raise Unsupported('truth of %s'%so)
    def toint(self, v):
        return If(v,IntVal(1),IntVal(0)) if z3.is_expr(v) and v.sort()==B else v
    def wrap(self, v, ty):
        """conversion of a mathematical integer to the type (modulo)"""
        lo,hi=self.int_range(ty); m=hi-lo+1
        if z3.is_int_value(v):
            x=v.as_long(); x=(x-lo)%m+lo; return IntVal(x)
        b=self.bits.get(v.get_id())
        if b and (1<<b[1])-1<=hi and b[1]>=0: return v
        # if provably in range keep it simple
        if not self.feasible(Or(v<lo,v>hi)): return v
        if ty.sg: return If(And(v>=lo,v<=hi),v,(v-lo)%m+lo)
        return If(And(v>=lo,v<=hi),v,v%m)
    def setbits(self, e, tz, hi):
        self.bits[e.get_id()]=(tz,hi); self.keep.append(e); return e
    def getbits(self, e, ty=None):
        if z3.is_int_value(e):
            x=e.as_long()
            if x<0: return None
            tz=0
            if x==0: return (64,0)
            while x%2==0: x//=2; tz+=1
            return (tz,e.as_long().bit_length())
        b=self.bits.get(e.get_id())
        if b: return b
        if ty is not None and ty.k=='int' and not ty.sg: return (0,ty.w)
        return None
    def binop(self, op, a, b, ty, ta=None, tb=None):
        """arithmetic on integers of (converted) type ty"""
        if op in('+','-','*'):
            r={'+':a+b,'-':a-b,'*':a*b}[op]; r=z3.simplify(r)
            lo,hi=self.int_range(ty)
            if ty.sg:
                if z3.is_int_value(r) and lo<=r.as_long()<=hi: return r
                self.oblige(And(r>=lo,r<=hi),'overflow','signed %s does not overflow'%op)
                return r
            return self.wrap(r,ty)
        if op in('/','%'):
            self.oblige(b!=0,'div','division by zero')
            if z3.is_int_value(b) and b.as_long()>0:
                if ty.sg:
                    q=If(a>=0,a/b,-((-a)/b)); return q if op=='/' else a-q*b
                return a/b if op=='/' else a%b
            raise Unsupported('division by a non-constant')
        if op=='&':
            for x,m,mt in((a,b,ta),(b,a,tb)):
                if z3.is_int_value(m):
                    mv=m.as_long()
                    if mv==0: return IntVal(0)
                    if mv>0:
                        if z3.is_int_value(x): return IntVal(x.as_long()&mv)
                        e=self.bitexpand(x,mv)
                        if e is not None: return e
                        lo=(mv & -mv).bit_length()-1; top=mv>>lo
                        if top&(top+1)==0:
                            hi=lo+top.bit_length()
                            r=x%(1<<hi)
                            if lo: r=r-x%(1<<lo)
                            r=z3.simplify(r)
                            return self.setbits(r,lo,hi)
                        # sum over maximal runs of ones
                        r=IntVal(0); k=0; mm=mv
                        while mm>>k:
                            if (mm>>k)&1:
                                j=k
                                while (mm>>j)&1: j+=1
                                r=r+(x%(1<<j)-x%(1<<k)) if k else r+x%(1<<j)
                                k=j
                            else: k+=1
                        r=z3.simplify(r); return self.setbits(r,lo,mv.bit_length())
                    else: # negative mask = clear low bits
                        n=-mv
                        if n&(n-1)==0: return z3.simplify(x-x%n)
            if a.eq(b): return a
            r=self.bv('and',a,b,ty); return r
        if op=='|':
            if z3.is_int_value(a) and z3.is_int_value(b): return IntVal(a.as_long()|b.as_long())
            for x,y,tx,tyy in((a,b,ta,tb),(b,a,tb,ta)):
                by=self.getbits(y,tyy)
                if by is None: continue
                hi=by[1]
                if z3.is_int_value(x):
                    if x.as_long()%(1<<hi)==0: 
                        r=z3.simplify(x+y)
                        bx=self.getbits(x)
                        if bx: self.setbits(r,min(by[0],bx[0]),max(by[1],bx[1]))
                        return r
                bx=self.getbits(x,tx)
                if bx and bx[0]>=hi:
                    r=z3.simplify(x+y); return self.setbits(r,min(by[0],bx[0]),max(bx[1],by[1]))
            return self.bv('or',a,b,ty)
        if op=='^': return self.bv('xor',a,b,ty)
        if op=='<<':
            if z3.is_int_value(b):
                k=b.as_long(); r=z3.simplify(a*(1<<k)); ba=self.getbits(a)
                if ba: self.setbits(r,ba[0]+k,ba[1]+k)
                return self.wrap(r,ty)
            raise Unsupported('shift by a variable')
        if op=='>>':
            if z3.is_int_value(b):
                k=b.as_long(); r=z3.simplify(a/(1<<k)); ba=self.getbits(a,ta)
                if ba: self.setbits(r,max(0,ba[0]-k),max(0,ba[1]-k))
                return r
            raise Unsupported('shift by a variable')
        raise Unsupported('operator '+op)
    def bitexpand(self, x, mv):
        """(a op b) & mask for a few mask bits, bit by bit instead of through bit vectors"""
        if bin(mv).count('1')>8 or z3.simplify(x).get_id() not in self.__dict__.get('_bitops',{}): return None
        def bit(x,k):
            d=self._bitops.get(z3.simplify(x).get_id())
            if d is None: return (x/(1<<k))%2==1
            p,q=bit(d[1],k),bit(d[2],k); return And(p,q) if d[0]=='and' else Or(p,q) if d[0]=='or' else z3.Xor(p,q)
        return z3.simplify(z3.Sum(*[If(bit(x,k),IntVal(1<<k),IntVal(0)) for k in range(mv.bit_length()) if mv>>k&1]))
    def bv(self, op, a, b, ty):
        w=ty.w; x=z3.Int2BV(a,w); y=z3.Int2BV(b,w)
        r={'and':x&y,'or':x|y,'xor':x^y}[op]
        r=z3.simplify(z3.BV2Int(r,is_signed=bool(ty.sg))); self.__dict__.setdefault('_bitops',{})[r.get_id()]=(op,a,b,r); return r
    def cmp(self, op, a, b):
        a=self.norm(a); b=self.norm(b)
        if op in('==','!='):
            r=self.eq(a,b); return r if op=='==' else Not(r)
        if z3.is_expr(a) and a.sort()==Ptr: a,b=Ptr.off(a),Ptr.off(b)
        elif z3.is_expr(a) and a.sort()==CSs:
            a,b=CSs.o(a),CSs.o(b)
        a=self.toint(a); b=self.toint(b)
        return {'<':a<b,'>':a>b,'<=':a<=b,'>=':a>=b}[op]
    def norm(self, v):
        if isinstance(v,Rec): return v.ref
        return v
    def eq(self, a, b):
        a=self.norm(a); b=self.norm(b)
        if isinstance(a,Iter) and isinstance(b,Iter):
            if a.rev!=b.rev: raise Unsupported('mixed iterators')
            if a.rev: return a.idx==b.idx
            return a.idx==b.idx
        if isinstance(a,MapIter) and isinstance(b,MapIter):
            return Or(And(a.end,b.end),And(Not(a.end),Not(b.end),a.key==b.key))
        if isinstance(a,(PtrTo,FnPtr,Lambda)) or isinstance(b,(PtrTo,FnPtr,Lambda)):
            if isinstance(a,FnPtr) and isinstance(b,FnPtr): return BoolVal(a.fn.id==b.fn.id)
            for x,y in((a,b),(b,a)):
                if z3.is_expr(y): return BoolVal(False) if self.is_null(y) else self._unsup('compare address')
            return BoolVal(a is b)
        if a.sort()!=b.sort():
            a2,b2=self.coerce_pair(a,b); a,b=a2,b2
        if a.sort()==CSs and (a.eq(CSs.null) or b.eq(CSs.null)): return CSs.is_null(b if a.eq(CSs.null) else a)
        if a.sort()==Ptr and (a.eq(PNULL) or b.eq(PNULL)): return Ptr.blk(b if a.eq(PNULL) else a)==0
        return a==b
    def _unsup(self,s): raise Unsupported(s)
    def is_null(self, y):
        y=z3.simplify(y)
        return (z3.is_int_value(y) and y.as_long()==0) or y.eq(CSs.null) or y.eq(PNULL)
    def coerce_pair(self, a, b):
        if a.sort()==B and b.sort()==I: return self.toint(a),b
        if b.sort()==B and a.sort()==I: return a,self.toint(b)
        for x,y,sw in((a,b,0),(b,a,1)):
            if self.is_null(x):
                z=self.zero(y.sort()); return (z,y) if not sw else (y,z)
        if a.sort()==Ptr and b.sort()==I: return self.ptr2void(a),b
        if b.sort()==Ptr and a.sort()==I: return a,self.ptr2void(b)
        raise Unsupported('comparison of %s with %s'%(a.sort(),b.sort()))
    def ptr2void(self, p):
        p=z3.simplify(p)
        if self.is_null(p): return IntVal(0)
        if z3.is_app(p) and p.decl().eq(v2p): return p.arg(0)
        r=p2v(p); i=r.get_id()
        if i not in self.seen_reads:
            self.seen_reads.add(i); self.keep.append(r)
            self.assume(v2p(r)==p); self.assume((r==0)==(Ptr.blk(p)==0))
        return r
    def void2ptr(self, v):
        v=z3.simplify(v)
        if self.is_null(v): return PNULL
        if z3.is_app(v) and v.decl().eq(p2v): return v.arg(0)
        r=v2p(v); i=r.get_id()
        if i not in self.seen_reads:
            self.seen_reads.add(i); self.keep.append(r); self.assume(v2p(IntVal(0))==PNULL); self.assume(Implies(v!=0,And(p2v(r)==v,Ptr.blk(r)!=0)))
        return r
    def convert(self, v, so):
        """pointer representation change / bool-int"""
        if not z3.is_expr(v): return v
        if v.sort()==so: return v
        if self.is_null(v): return self.zero(so)
        if v.sort()==Ptr and so==I: return self.ptr2void(v)
        if v.sort()==I and so==Ptr: return self.void2ptr(v)
        if v.sort()==Ptr and so==CSs:
            return self.ptr2cs(v)
        if v.sort()==B and so==I: return self.toint(v)
        if v.sort()==I and so==B: return v!=0
        if v.sort()==CSs and so==I: return func('cs2v',CSs,I)(v)
        if v.sort()==I and so==CSs: return func('v2cs',I,CSs)(v)
        if v.sort()==CSs and so==Ptr: raise Unsupported('const char* reinterpreted as a buffer')
        raise Unsupported('conversion %s to %s'%(v.sort(),so))
    def ptr2cs(self, p):
        a=Select(self.mem('char',I),Ptr.blk(p)); s=func('bufstr',z3.ArraySort(I,I),Str)(a)
        return If(Ptr.blk(p)==0,CSs.null,CSs.mk(s,Ptr.off(p)))
